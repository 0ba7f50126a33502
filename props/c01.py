"""C01: no cycle, and a refused request changes nothing."""
from harness.core import edits, draw_args
from harness.logic import And, Or, Not, Iff, Implies
from harness.scenario import Scenario
from harness.world import World, OPS, quiet, LARGE, large

REL = ['add_parent', 'add_child', 'move', 'set_parent']
ADD = ['add_node_parent', 'ctor_parent', 'ctor_child']

ASSUMPTIONS = [
    'node identifiers are non-empty strings other than the reserved root names',
    'requests are made from the thread that created the tree',
]


def checks(w, before, after, exc, refused, name, args):
    out = [('no cycle after %s' % name, w.acyclic(after)),
           ('%s is refused exactly when it would close a cycle' % name,
            Or(w.model.undef, Iff(exc is not None, refused)))]
    if exc is not None:
        out.append(('a refused %s changes nothing' % name,
                    after.sig == before.sig))
    else:
        out += w.tree_conds(after, label='after ' + name)
    return out


def late_cycle(m, first):
    """Relationships requested before their nodes exist may form cycles: what
    is established never does."""
    def run(ctx):
        w = World(ctx, m)
        ids = ctx.ids
        order = ctx.choice('addorder', PERMS[m])
        for i in order:
            node = w.new_node(ids[i])
            for j in range(m):
                if j == i:
                    continue
                if ctx.decide('lp%d%d' % (j, i)):
                    node.add_parent(ids[j])
                if first and ctx.decide('lc%d%d' % (i, j)):
                    node.add_child(ids[j])
            exc = w.do_raw('add', lambda: w.tree.add_node(node))
            o = w.observe()
            ctx.check_memo(('late', o.sig, exc is None), lambda: [
                ('adding a node with late relationships succeeds', exc is None),
                ('no cycle', w.acyclic(o))] + w.struct_conds(o),
                lambda: (exc, o.sig))
        asked = {(j, i) for j in range(m) for i in range(m) if j != i and
                 (ctx.decide('lp%d%d' % (j, i)) or
                  (first and ctx.decide('lc%d%d' % (j, i))))}
        got = {(p, c) for c in range(m) for p in o.parents[c]}
        ctx.check([('only requested relationships are established',
                    got <= asked)], lambda: (asked, got))
        if got != asked:
            ctx.cover('a late relationship was dropped')
    return run


def both_sides(m):
    """A new node that brings children with it is added below a parent: refused
    exactly when the parent is one of them or below one of them."""
    def run(ctx):
        x = ctx.arg('x0')
        ctx.assume_arg(x)
        w = World(ctx, m + 1)
        w.build(m)
        new = ctx.ids[m]
        node = w.new_node(new)
        kids = [j for j in range(m) if ctx.decide('kid%d' % j)]
        with quiet():
            for j in kids:
                node.add_child(ctx.ids[j])
        before = w.observe()
        exc = w.do_raw(('add', kids), lambda: w.tree.add_node(node, x))
        after = w.observe()

        def conds():
            R, X = w.model.R, w.X(x)
            return [('refused exactly when it would close a cycle',
                     Iff(exc is not None, Or(X[m], *[
                         And(X[i], True if i == j else R[j][i])
                         for j in kids for i in range(m)])))]
        ctx.check_memo((w.key, tuple(kids), exc is None), conds,
                       lambda: (kids, exc, after.sig))
        ctx.check([('no cycle', w.acyclic(after))] + w.struct_conds(after),
                  lambda: (exc, after.sig))
        if exc is None:
            i = w.index(x)
            ctx.check([('its children and its parent are those requested',
                        sorted(after.children[m]) == kids and
                        after.parents[m] == [i])], lambda: (kids, after.sig))
            return
        ctx.cover('refused')
        ctx.check([('a refused addition changes nothing', after.sig == before.sig)],
                  lambda: (before.sig, after.sig))
        w.do_raw('add afresh', lambda: w.tree.add_node(w.new_node(new)))
        o = w.observe()
        ctx.check([('nothing of a refused addition is left',
                    o.pres[m] and not o.parents[m] and not o.children[m] and
                    o.parents[:m] == before.parents[:m])], lambda: (before.sig, o.sig))
    return run


def _perms(n):
    if n == 0:
        return [()]
    return [p[:k] + (n - 1,) + p[k:] for p in _perms(n - 1) for k in range(n)]


PERMS = {n: sorted(_perms(n)) for n in range(1, 5)}


def with_view(m, ops):
    """A refused request also leaves views as they are and tells them nothing."""
    def run(ctx):
        args = draw_args(ctx, 1)[0]
        w = World(ctx, m)
        w.build(m)
        view = w.tree.get_viewtree()
        events = []
        for ev in ('node-added-inview', 'node-deleted-inview'):
            view.register_cllbck(ev, lambda n, p, ev=ev: events.append((ev, n, p)))
        before = view_sig(w, view)
        name = ctx.choice('op', ops)
        exc, refused = w.step(name, *args)
        if exc is None:
            return
        ctx.cover('refused with a view')
        after = view_sig(w, view)
        ctx.check([('a refused request leaves the view as it was',
                    before == after),
                   ('a refused request sends no structural change', not events)],
                  lambda: (before, after, events))
    return run


def view_sig(w, view):
    return (tuple(map(w.index, view.get_all_nodes())),
            tuple(tuple(tuple(map(w.index, p)) for p in
                        view.get_paths_for_node(n)) for n in view.get_all_nodes()))


def again(m):
    """A request, another edit, and the first request once more: whether it was
    refused the first time makes no difference."""
    FIRST = ['add_parent', 'add_child', 'move']
    OTHER = ['remove_parent', 'move_root', 'delete', 'add_parent']

    def run(ctx):
        args = draw_args(ctx, 2)
        w = World(ctx, m)
        w.build(m)
        first = ctx.choice('op0', FIRST)
        steps = [(first, args[0]), (ctx.choice('op1', OTHER), args[1]), (first, args[0])]
        before = w.observe()
        excs = []
        for name, a in steps:
            a = a[:OPS[name]]
            exc, refused = w.step(name, *a)
            after = w.observe()
            excs.append(exc is not None)
            ctx.check_memo(('again', w.key, before.sig, after.sig, exc is None),
                           lambda: checks(w, before, after, exc, refused, name, a),
                           lambda: 'exception=%r\nbefore %s\nafter  %s' % (
                               exc, before.sig, after.sig))
            before = after
            if len(excs) == 1 and not excs[0]:
                return
        if not excs[2]:
            ctx.cover('refused at first, not later')
    return run


SCENARIOS = [
    Scenario('n4-1op', edits(4, [REL + ['remove_parent']], checks), 4,
             'every acyclic relation on 4 nodes, 1 operation on symbolic nodes',
             covers=['move refused', 'add_parent refused', 'add_child refused',
                     'set_parent refused', 'move done']),
    Scenario('n3-2ops', edits(3, [REL, REL], checks, orders=('fwd', 'revp')), 3,
             'every acyclic relation on 3 nodes, 2 operations'),
    Scenario('n5-1op', edits(5, [['add_parent', 'move']], checks), 5,
             'every acyclic relation on 5 nodes, 1 operation'),
    Scenario('add', edits(3, [['add_child', 'add_parent'], ADD], checks, spare=1), 4,
             '3 nodes, a relationship that may have to wait, then a new node',
             covers=['add_node_parent refused']),
    Scenario('late3', late_cycle(3, True), 3,
             '3 nodes, any set of relationships requested before the nodes '
             'exist (cyclic ones included), any order of arrival',
             covers=['a late relationship was dropped']),
    Scenario('large', large(edits(12, [REL + ['remove_parent']], checks), LARGE), 12,
             '12 nodes in one of 7 large shapes (chain, star, funnel, ladder, tree, '
             'waist, no relation), 1 operation', covers=['move refused']),
    Scenario('again4', again(4), 4,
             'every acyclic relation on 4 nodes, a refused request, another edit, '
             'the same request again', covers=['refused at first, not later']),
    Scenario('both3', both_sides(3), 4,
             'every acyclic relation on 3 nodes, a new node with any of them as '
             'children is added below any of them', covers=['refused']),
    Scenario('both4', both_sides(4), 5,
             'every acyclic relation on 4 nodes, a new node with any of them as '
             'children is added below any of them', covers=['refused'],
             tiers=('thorough',)),
    Scenario('view4', with_view(4, ['add_parent', 'move', 'add_child']), 4,
             'every acyclic relation on 4 nodes with an unfiltered view, '
             '1 operation', covers=['refused with a view']),
    Scenario('n4-2ops', edits(4, [REL, REL], checks), 4,
             'every acyclic relation on 4 nodes, 2 operations',
             tiers=('thorough',)),
    Scenario('n5-all', edits(5, [REL + ['remove_parent']], checks,
                             orders=('fwd', 'rev')), 5,
             'every acyclic relation on 5 nodes, 1 operation',
             tiers=('thorough',)),
    Scenario('n3-3ops', edits(3, [REL, REL, REL], checks), 3,
             'every acyclic relation on 3 nodes, 3 operations',
             tiers=('thorough',)),
    Scenario('late4', late_cycle(4, False), 4,
             '4 nodes, any set of late parents, any order of arrival',
             tiers=('thorough',)),
]
