"""The GLib main loop: the stand-in during symbolic runs, the real one in
replays."""
import sys


def _stub():
    from . import load
    return load._finder is not None


def reset():
    if _stub():
        return           # load.fresh() starts every path with an empty loop
    run()


def iterate():
    """one dispatch; False if there was nothing to do"""
    if _stub():
        from .gistub import loop
        return loop.iterate()
    from gi.repository import GLib
    return GLib.MainContext.default().iteration(False)


def run(limit=200):
    """until nothing is left; False if it never comes to rest"""
    for _ in range(limit):
        if not iterate():
            return True
    return False
