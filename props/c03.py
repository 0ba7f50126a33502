"""C03: an edit does exactly what was asked."""
from harness.core import edits, draw_args, order_kept
from harness.logic import And, Or, Not, Iff, Implies
from harness.scenario import Scenario
from harness.spec import pick
from harness.world import World, OPS, LARGE, large
from props.c05 import arrivals

REL = ['add_parent', 'add_child', 'move', 'set_parent', 'remove_parent',
       'move_root']
ADD = ['add_node', 'add_node_parent']

ASSUMPTIONS = [
    'node identifiers are non-empty strings other than the reserved root names',
    'requests are made from the thread that created the tree',
]


def checks(w, before, after, exc, refused, name, args):
    out = w.tree_conds(after, label='after ' + name)
    for i in range(w.n):
        out.append(('children of %d keep their order' % i,
                    order_kept(before.children[i], after.children[i])))
        out.append(('parents of %d keep their order' % i,
                    order_kept(before.parents[i], after.parents[i])))
    out.append(('top level keeps its order', order_kept(before.root, after.root)))
    if name in ('move', 'move_root') and exc is None:
        out.append(('moving reports whether the node exists',
                    w.returned is (w.index(args[0]) in before.all)))
    if not (name in REL and exc is None):
        return out
    return out


def frozen(m, flag):
    """A node with children (parents) disabled loses and never gains any."""
    def run(ctx):
        args = draw_args(ctx, 2)
        w = World(ctx, m)
        w.build(m)
        x = args[0][0]
        w.step(flag, x)
        i = w.index(x)
        before = w.observe()
        ctx.check_memo((w.key, before.sig), lambda: w.tree_conds(before),
                       lambda: before.sig)
        name = ctx.choice('op', ['add_parent', 'add_child', 'move', 'set_parent'])
        a, b = args[1]
        w.do(name, a, b)
        child, parent = (b, a) if name == 'add_child' else (a, b)
        after = w.observe()
        if flag == 'no_children':
            ctx.check([('no children after disabling them',
                        not after.children[i] and
                        not any(i in ps for ps in after.parents))],
                      lambda: (before.sig, after.sig))
            hit = w.index(parent) == i
        else:
            ctx.check([('no parents after disabling them',
                        not after.parents[i] and
                        not any(i in cs for cs in after.children))],
                      lambda: (before.sig, after.sig))
            hit = w.index(child) == i
        if hit:
            ctx.cover('request on a disabled node')
            ctx.check([('a request on a disabled node changes nothing',
                        before.sig == after.sig)],
                      lambda: (before.sig, after.sig))
        ctx.check(w.struct_conds(after), lambda: after.sig)
        # enabling again brings back normal behaviour
        node = w.tree.get_node(ctx.ids[i])
        getattr(node, 'set_children_enabled' if flag == 'no_children'
                else 'set_parents_enabled')(True)
        o2 = w.observe()
        ctx.check([('enabling changes nothing by itself', o2.sig == after.sig)])
        j = (i + 1) % m
        p, c = (i, j) if flag == 'no_children' else (j, i)
        if p not in desc(o2, c):
            w.do('add_parent', ctx.ids[c], ctx.ids[p])
            o3 = w.observe()
            ctx.check([('an enabled node takes relationships again',
                        p in o3.parents[c] and c in o3.children[p])],
                      lambda: o3.sig)
    return run


def desc(o, i):
    out, todo = set(), [i]
    while todo:
        for c in o.children[todo.pop()]:
            if c not in out:
                out.add(c)
                todo.append(c)
    return out


def registry(m):
    """Lookup by identifier gives the very object that was added; a taken
    identifier is not replaced; unknown identifiers are an error."""
    def run(ctx):
        a = [ctx.arg('a%d' % s) for s in range(m)]
        for s in a:
            ctx.assume_arg(s)
        parents = [ctx.arg('p%d' % s) for s in range(m)]
        for s in parents:
            ctx.assume_arg(s)
        w = World(ctx, ctx.n_ids)
        objs = {}
        for s in range(m):
            node = w.L.TreeNode(a[s])
            i = w.index(a[s])
            known = i in objs
            before = w.observe()
            withp = ctx.decide('withp%d' % s)
            j = w.index(parents[s]) if withp else None
            if withp and i == j:
                ctx.cover('own parent')
            exc = w.do_raw('add %s' % (a[s],), lambda: w.tree.add_node(
                node, parents[s]) if withp else w.tree.add_node(node))
            after = w.observe()
            if known:
                ctx.cover('taken identifier')
                ctx.check([('a taken identifier changes nothing',
                            after.sig == before.sig)], lambda: (before.sig, after.sig))
            elif exc is None:
                objs[i] = node
            for k in range(w.n):
                sid = ctx.ids[k]
                ctx.check([('has_node', w.tree.has_node(sid) == (k in objs)),
                           ('is listed', (k in after.all) == (k in objs))],
                          lambda: (after.sig, sorted(objs)))
                try:
                    got = w.tree.get_node(sid)
                except ValueError:
                    ctx.check([('a known node is found', k not in objs)])
                    continue
                ctx.check([('lookup gives the added object',
                            got is objs.get(k))])
                ctx.check([('it knows its identifier',
                            got.get_id() == sid)])
    return run


WIDE = ['star', 'funnel']
SCENARIOS = [
    Scenario('n4-1op', edits(4, [REL], checks, orders=('fwd', 'rev', 'revp')), 4,
             'every acyclic relation on 4 nodes, 1 operation',
             covers=['move done', 'remove_parent done']),
    Scenario('n3-2ops', edits(3, [REL, REL], checks), 3,
             'every acyclic relation on 3 nodes, 2 operations'),
    Scenario('n5-1op', edits(5, [['move', 'move_root', 'remove_parent']], checks), 5,
             'every acyclic relation on 5 nodes, 1 operation'),
    Scenario('add', edits(3, [REL, ADD], checks, spare=1), 4,
             'every acyclic relation on 3 nodes, an edit, then an addition'),
    Scenario('large', large(edits(12, [REL], checks), LARGE), 12,
             '12 nodes in one of 7 large shapes (chain, star, funnel, ladder, tree, '
             'waist, no relation), 1 operation'),
    Scenario('no-children', frozen(3, 'no_children'), 3,
             '3 nodes, one has its children disabled, then an edit',
             covers=['request on a disabled node']),
    Scenario('no-parents', frozen(3, 'no_parents'), 3,
             '3 nodes, one has its parents disabled, then an edit',
             covers=['request on a disabled node']),
    Scenario('no-children-large', large(frozen(12, 'no_children'), WIDE), 12,
             '12 nodes, one above all others or below all others, one has its children disabled, then '
             'an edit'),
    Scenario('no-parents-large', large(frozen(12, 'no_parents'), WIDE), 12,
             '12 nodes, one above all others or below all others, one has its parents disabled, then '
             'an edit'),
    Scenario('refusing', arrivals(3, ['none', 'child-before', 'after-first'],
                                  ['set_children_enabled', 'set_parents_enabled']), 3,
             '3 nodes in any order, any acyclic relation requested in advance, '
             'one node refuses children or parents',
             covers=['refuses', 'refuses later']),
    Scenario('refusing2', arrivals(2, ['none', 'child-before', 'parent-before',
                                       'after-first', 'param', 'set-before'],
                                   ['set_children_enabled',
                                    'set_parents_enabled']), 2,
             '2 nodes in any order, a relationship requested in any of 5 ways, '
             'one node refuses children or parents',
             covers=['refuses', 'refuses later']),
    Scenario('registry', registry(3), 3,
             '3 additions under symbolic (possibly equal) identifiers and parents',
             covers=['taken identifier', 'own parent']),
    Scenario('n4-2ops', edits(4, [REL, REL], checks), 4,
             'every acyclic relation on 4 nodes, 2 operations',
             tiers=('thorough',)),
    Scenario('n5-all', edits(5, [REL], checks, orders=('fwd', 'rev')), 5,
             'every acyclic relation on 5 nodes, 1 operation', tiers=('thorough',)),
    Scenario('n3-3ops', edits(3, [REL] * 3, checks), 3,
             'every acyclic relation on 3 nodes, 3 operations',
             tiers=('thorough',)),
    Scenario('no-children4', frozen(4, 'no_children'), 4,
             '4 nodes, one has its children disabled, then an edit',
             tiers=('thorough',)),
    Scenario('no-parents4', frozen(4, 'no_parents'), 4,
             '4 nodes, one has its parents disabled, then an edit',
             tiers=('thorough',)),
    Scenario('registry4', registry(4), 4,
             '4 additions under symbolic identifiers and parents',
             tiers=('thorough',)),
]
