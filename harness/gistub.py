"""Stand-ins for gi (GLib main loop, Gtk tree store) used during symbolic runs.

GLib contract modelled (checked against the real GLib, see DESIGN.md):
 * idle_add queues a callback and returns a positive id; the callback runs from
   the main loop only;
 * a callback that returns a false value, or raises, is dropped;
 * source_remove drops a source, also from inside its own callback.
"""
import sys
import types


class MainLoop(object):
    """The idle sources of one path."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.next_id = 1
        self.sources = {}
        self.errors = []

    def idle_add(self, func, *args, **kwargs):
        sid = self.next_id
        self.next_id += 1
        self.sources[sid] = (func, args)
        return sid

    def source_remove(self, sid):
        if sid in self.sources:
            del self.sources[sid]
            return True
        return False

    def iterate(self):
        """Dispatch the oldest source once. False when there is none."""
        for sid in self.sources:
            break
        else:
            return False
        func, args = self.sources[sid]
        again = False
        try:
            again = func(*args)
        except Exception as e:
            self.errors.append(e)
        if sid in self.sources:
            entry = self.sources.pop(sid)
            if again:
                self.sources[sid] = entry     # goes to the back: round robin
        return True

    def run(self, limit=1000):
        n = 0
        while self.iterate():
            n += 1
            if n > limit:
                return False
        return True


loop = MainLoop()


def reset():
    loop.reset()


def install():
    gi = types.ModuleType('gi')
    gi.require_version = lambda *a: None
    rep = types.ModuleType('gi.repository')
    for name in ('GObject', 'GLib'):
        m = types.ModuleType('gi.repository.' + name)
        m.idle_add = loop.idle_add
        m.source_remove = loop.source_remove
        m.timeout_add = lambda t, f, *a: loop.idle_add(f, *a)
        m.PRIORITY_DEFAULT_IDLE = 200
        m.PRIORITY_DEFAULT = 0

        class Source(object):
            remove = staticmethod(loop.source_remove)
        m.Source = Source
        setattr(rep, name, m)
        sys.modules['gi.repository.' + name] = m
    from . import gtkstub
    for name, m in gtkstub.modules(rep.GObject).items():
        setattr(rep, name, m)
        sys.modules['gi.repository.' + name] = m
    gi.repository = rep
    sys.modules['gi'] = gi
    sys.modules['gi.repository'] = rep
