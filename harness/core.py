"""Scenario makers for the tree itself (no views)."""
from .logic import And, Or, Not, Iff, Implies
from .scenario import Scenario
from .world import World, OPS


def draw_args(ctx, k, names=('x', 'y')):
    args = [[ctx.arg('%s%d' % (nm, s)) for nm in names] for s in range(k)]
    for a in args:
        for sid in a:
            ctx.assume_arg(sid)
    return args


def order_kept(a, b):
    """the elements two observations of a list share are in the same order"""
    ca = [x for x in a if x in b]
    cb = [x for x in b if x in a]
    return ca == cb


def edits(m, ops, checks, orders=('fwd',), spare=0, view=None):
    """An arbitrary acyclic tree of m nodes, then len(ops) symbolic operations
    (ops[s]: the choices of step s) on symbolic arguments.
    checks(w, before, after, exc, refused, name, args) -> [(label, formula)]"""
    k = len(ops)

    def run(ctx):
        args = draw_args(ctx, k)
        w = World(ctx, m + spare)
        w.build(m, orders=orders)
        before = w.observe()
        for s in range(k):
            name = ctx.choice('op%d' % s, ops[s])
            a = args[s][:OPS[name]]
            w.returned = None
            exc, refused = w.step(name, *a)
            after = w.observe()
            ret = w.returned
            key = ('edits', w.key, before.sig, after.sig, exc is None, ret)
            ctx.check_memo(key, lambda: checks(w, before, after, exc, refused,
                                               name, a),
                           lambda: 'exception=%r\nbefore %s\nafter  %s' % (
                               exc, before.sig, after.sig))
            ctx.cover('%s refused' % name if exc else '%s done' % name)
            before = after
    return run
