"""C05: relationships requested before both nodes exist."""
from harness.core import edits, draw_args
from harness.logic import And, Or, Not, Iff, Implies
from harness.scenario import Scenario
from harness.spec import Model
from harness.world import World, quiet
from props.c01 import PERMS

ASSUMPTIONS = [
    'node identifiers are non-empty strings other than the reserved root names',
    'the relationships requested in advance do not contradict each other '
    '(no cycle among them): which one would win is unspecified',
    'requests are made from the thread that created the tree',
]

WAYS = ['none', 'child-before', 'parent-before', 'after-first', 'param',
        'set-before', 'withdrawn']


def arrivals(m, ways, flags=()):
    """m nodes arrive in any order; any acyclic relation among them is
    requested, each relationship in any of `ways`, before its second end
    arrives; afterwards it is there, and while it waits it is not.  With
    `flags` one of the nodes refuses children or parents, before it arrives or
    from its arrival on."""
    def run(ctx):
        if flags:
            who = ctx.choice('refuses', list(range(m)))
            flag = ctx.choice('what', list(flags))
            late_flag = ctx.decide('later')
            ctx.cover('refuses later' if late_flag else 'refuses')
        w = World(ctx, m)
        ids = ctx.ids
        order = ctx.choice('arrive', PERMS[m])
        pos = {i: k for k, i in enumerate(order)}
        way = {}
        for p in range(m):
            for c in range(p + 1, m):
                way[p, c] = ctx.choice('way%d%d' % (p, c), ways)
        nodes = {i: w.new_node(ids[i]) for i in order}
        arrived = []
        for i in order:
            node = nodes[i]
            with quiet():
                if flags and i == who and not late_flag:
                    getattr(node, flag)(False)
                first = True
                for (p, c), how in way.items():
                    if how == 'set-before' and c == i:
                        # the first wish of a node may be its only parent
                        if first:
                            # an earlier wish does not survive
                            node.add_parent(ids[(c + 1) % m])
                        (node.set_parent if first else node.add_parent)(ids[p])
                        first = False
                for (p, c), how in way.items():
                    if how == 'withdrawn' and c == i:
                        node.add_parent(ids[p])
                        node.remove_parent(ids[p])
                    elif how == 'child-before' and c == i:
                        node.add_parent(ids[p])
                    elif how == 'parent-before' and p == i:
                        node.add_child(ids[c])
                param = [p for (p, c), how in way.items()
                         if c == i and how == 'param']
                if len(param) > 1:
                    ctx.cover('several')
                    for p in param[1:]:
                        node.add_parent(ids[p])
            exc = w.do_raw(('add', i, way), lambda: w.tree.add_node(
                node, ids[param[0]]) if param else w.tree.add_node(node))
            arrived.append(i)
            with quiet():
                if flags and i == who and late_flag:
                    getattr(node, flag)(False)
                for (p, c), how in way.items():
                    if how != 'after-first':
                        continue
                    if i == p and pos[p] < pos[c]:
                        node.add_child(ids[c])
                    elif i == c and pos[c] < pos[p]:
                        w.tree.add_parent(ids[c], ids[p])
            o = w.observe()
            out = [('adding succeeds', exc is None)]
            refused = set()
            if flags:
                refused = {(who, c) if flag == 'set_children_enabled' else (c, who)
                           for c in range(m) if who in arrived}
            for p in range(m):
                for c in range(m):
                    if (p, c) in refused:
                        out.append(('%d not parent of %d: refused' % (p, c),
                                    p not in o.parents[c]))
                        continue
                    out.append(('%d parent of %d' % (p, c), Iff(
                        p in o.parents[c],
                        And(p in arrived, c in arrived,
                            asked(ctx, p, c, ways)))))
            ctx.check(out + w.struct_conds(o), lambda: (exc, way, order, o.sig))
        if any(h == 'after-first' for h in way.values()):
            ctx.cover('late')
    return run


def hub(m):
    """m nodes, each to be a parent or a child of one more, which arrives at any
    time; just before it one that arrived is deleted, which comes back last."""
    def run(ctx):
        w = World(ctx, m + 1)
        ids = ctx.ids
        at = ctx.choice('at', list(range(m + 1)))
        way = ctx.choice('way', ['child-before', 'parent-before', 'after-first'])
        gone = ctx.choice('gone', [None] + list(range(m)))
        if gone is not None and gone >= at:
            return
        up = [ctx.decide('up%d' % i) for i in range(m)]      # i is a parent of the hub
        have = set()

        def relate(i, asker):
            node = w.tree.get_node(ids[asker]) if w.tree.has_node(ids[asker]) else None
            if node is None:
                node = new
            other = ids[m if asker == i else i]
            if up[i] == (asker == i):
                node.add_child(other)
            else:
                node.add_parent(other)

        def add(i):
            return w.do_raw(('add', i), lambda: w.tree.add_node(new))

        def check(label):
            o = w.observe()
            want = [set() for _ in range(m + 1)]
            for i in live - {m}:
                if m in live and i in related:
                    want[m if up[i] else i].add(i if up[i] else m)
            ctx.check([(label, [set(x) for x in o.parents] == want)] +
                      w.struct_conds(o), lambda: (way, up, o.sig))
        live = set()
        related = set(range(m))
        order = list(range(at)) + [m] + list(range(at, m))
        for i in order:
            if i == m and gone is not None:
                exc = w.do_raw(('delete', gone), lambda: w.tree.del_node(ids[gone]))
                ctx.check([('deleting succeeds', exc is None)], lambda: repr(exc))
                live.discard(gone)
            new = w.new_node(ids[i])
            asks = [] if way == 'after-first' else [
                j for j in (range(m) if i == m else [i])
                if (up[j] == (i == m)) == (way == 'child-before')]
            with quiet():
                for j in asks:
                    relate(j, i)
            exc = add(i)
            live.add(i)
            with quiet():
                if way == 'after-first':
                    for j in ([i] if i < at else
                              [j for j in range(at, m)] if i == m else []):
                        relate(j, i)
            ctx.check([('adding succeeds', exc is None)], lambda: repr(exc))
            if gone is not None and i == m:
                # what the deleted node asked for is forgotten
                if way == 'after-first' or up[gone] == (way == 'parent-before'):
                    related.discard(gone)
            if way != 'after-first' and i == m:
                ctx.cover('hub')
            check('after node %d arrived' % i)
        if gone is not None:
            new = w.new_node(ids[gone])
            exc = add(gone)
            live.add(gone)
            ctx.check([('adding succeeds', exc is None)], lambda: repr(exc))
            check('after node %d came back' % gone)
            ctx.cover('back')
    return run


def asked(ctx, p, c, ways):
    if not p < c:
        return False
    return And(*[Not(ctx.choice_is('way%d%d' % (p, c), len(ways), ways.index(k)))
                 for k in ('none', 'withdrawn') if k in ways])


def checks(w, before, after, exc, refused, name, args):
    return w.tree_conds(after, label='after ' + name) + w.struct_conds(after)


LATE = ['add_child', 'add_parent']
ADD = ['add_node', 'add_node_parent', 'ctor_parent', 'ctor_child']

SCENARIOS = [
    Scenario('arrive3', arrivals(3, WAYS), 3,
             '3 nodes in any order, any acyclic relation, each relationship '
             'requested in any of 5 ways or requested and withdrawn', covers=['late']),
    Scenario('arrive4', arrivals(4, ['none', 'after-first']), 4,
             '4 nodes in any order, any acyclic relation, requested after the '
             'first end arrived'),
    Scenario('arrive4b', arrivals(4, ['none', 'child-before']), 4,
             '4 nodes in any order, any acyclic relation, requested by the child '
             'before it arrived'),
    Scenario('arrive4c', arrivals(4, ['none', 'parent-before']), 4,
             '4 nodes in any order, any acyclic relation, requested by the parent '
             'before it arrived'),
    Scenario('hub6', hub(6), 7,
             '6 nodes, each to be a parent or child of one that arrives at any time, '
             'requested in any of 3 ways, any of them deleted before and back later',
             covers=['hub', 'back']),
    Scenario('n1-2late-2add', edits(1, [LATE, LATE, ADD[:2], ADD[:2]], checks,
                                    spare=2), 3,
             '1 node, 2 relationships requested, 2 nodes added'),
    Scenario('n2-late-del-add-add', edits(2, [LATE, ['delete', 'delete_rec'],
                                              ['add_node', 'readd'],
                                              ['add_node', 'readd']],
                                          checks, spare=1), 3,
             '2 nodes, a late relationship, a deletion, two additions'),
    Scenario('n2-late-edit-add', edits(2, [LATE, ['remove_parent', 'move', 'move_root',
                                                  'set_parent'] + LATE, ADD[:2]],
                                       checks, spare=1), 3,
             '2 nodes, a late relationship, an edit that may withdraw it, an addition',
             covers=['remove_parent done', 'move done']),
    Scenario('n3-late-add', edits(3, [LATE, ADD], checks, spare=1), 4,
             '3 nodes with any acyclic relation, a late relationship, an addition'),
    Scenario('n2-ctor-add', edits(2, [ADD, ADD], checks, spare=2), 4,
             '2 nodes, a node with late relationships, another node'),
    Scenario('arrive4x', arrivals(4, ['none', 'child-before', 'parent-before',
                                      'after-first']), 4,
             '4 nodes in any order, any acyclic relation, 3 ways',
             tiers=('thorough',)),
    Scenario('n2-2late-2add', edits(2, [LATE, LATE, ADD[:2], ADD[:2]], checks,
                                    spare=2), 4,
             '2 nodes, 2 relationships requested, 2 nodes added',
             tiers=('thorough',)),
    Scenario('n3-late-add-edit', edits(3, [LATE, ADD, ['delete', 'add_parent',
                                                       'remove_parent']],
                                       checks, spare=1), 4,
             '3 nodes, a late relationship, an addition, an edit',
             tiers=('thorough',)),
]
