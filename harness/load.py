"""Load /repo's current code, freshly for every path.

Symbolic mode: the sources under /repo are compiled once per process and
executed into new module objects for every path, so that no path sees module
or class level state another one left behind.  `gi` is replaced by the
stand-ins of harness/gistub.py (GLib's main loop and Gtk are environment).

Concrete mode (replay): the packages are imported normally from /repo, with
the real gi.
"""
import importlib
import importlib.abc
import importlib.util
import os
import sys
import types

REPO = os.environ.get('VERIF_REPO', '/repo')
PKGS = ('liblarch', 'liblarch_gtk')


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self):
        self.code = {}
        self.specs = {}
        self.done = []

    def find_spec(self, name, path=None, target=None):
        if name.partition('.')[0] not in PKGS:
            return None
        hit = self.specs.get(name)
        if hit is None:
            base = os.path.join(REPO, *name.split('.'))
            pkg = os.path.isdir(base)
            fn = os.path.join(base, '__init__.py') if pkg else base + '.py'
            if not os.path.exists(fn):
                return None
            with open(fn, encoding='utf-8') as f:
                src = f.read()
            self.code[name] = compile(src, fn, 'exec', dont_inherit=True)
            hit = self.specs[name] = (fn, pkg, base)
        fn, pkg, base = hit
        spec = importlib.util.spec_from_loader(name, self, origin=fn,
                                               is_package=pkg)
        if pkg:
            spec.submodule_search_locations = [base]
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.__file__ = self.specs[module.__name__][0]
        module.__dict__.update(INJECT)
        exec(self.code[module.__name__], module.__dict__)
        self.done.append(module.__name__)


_finder = None
INJECT = {}          # names that replace builtins inside the loaded modules


def install_symbolic():
    """called once per process before the first fresh()"""
    global _finder
    if _finder is None:
        sys.dont_write_bytecode = True
        from . import gistub
        gistub.install()
        from engine.symex import SymSet
        INJECT['set'] = SymSet
        _finder = _Finder()
        sys.meta_path.insert(0, _finder)


_order = {}      # requested modules -> [(name, is_pkg, base)] in completion order
_known = set()


def fresh(*extra, **kw):
    """A new instance of package liblarch (plus the named extra modules).
    threading: a module the code gets instead of threading"""
    threading = kw.get('threading')
    if threading is None:
        return _fresh(*extra)
    if _finder is None:
        import gi.repository                      # noqa: F401
        from gi.repository import GObject         # noqa: F401
    old = sys.modules['threading']
    sys.modules['threading'] = threading
    try:
        return _fresh(*extra)
    finally:
        sys.modules['threading'] = old


def _fresh(*extra):
    names = ('liblarch',) + extra
    if _finder is None:
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        out = [importlib.import_module(n) for n in names]
        return out[0] if len(out) == 1 else out
    from . import gistub
    gistub.reset()
    mods = sys.modules
    for m in _known:
        mods.pop(m, None)
    order = _order.get(names)
    if order is None:
        for m in [m for m in mods if m.partition('.')[0] in PKGS]:
            del mods[m]
        _finder.done = []
        out = [importlib.import_module(n) for n in names]
        _order[names] = list(_finder.done)
        _known.update(_finder.done)
        return out[0] if len(out) == 1 else out
    # same as importing again, without the import machinery's overhead
    specs, code = _finder.specs, _finder.code
    made = {}
    for n in order:
        fn, pkg, base = specs[n]
        m = types.ModuleType(n)
        m.__file__ = fn
        m.__package__ = n if pkg else n.rpartition('.')[0]
        if pkg:
            m.__path__ = [base]
        m.__spec__ = None
        m.__dict__.update(INJECT)
        made[n] = m
        mods[n] = m
    for n in order:
        exec(code[n], made[n].__dict__)
        parent, _, leaf = n.rpartition('.')
        if parent:
            setattr(made[parent], leaf, made[n])
    out = [made[n] for n in names]
    return out[0] if len(out) == 1 else out
