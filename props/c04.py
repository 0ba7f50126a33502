"""C04: deletion removes exactly what was asked and leaves nothing behind."""
from harness.core import edits, draw_args, order_kept
from harness.logic import And, Or, Not, Iff, Implies
from harness.scenario import Scenario
from harness.world import World, LARGE, large

DEL = ['delete', 'delete_rec']
ADD = ['add_node', 'add_node_parent', 'readd', 'readd_parent', 'ctor_parent',
       'ctor_child']
REL = ['add_parent', 'add_child', 'move', 'remove_parent']

ASSUMPTIONS = [
    'node identifiers are non-empty strings other than the reserved root names',
    'requests are made from the thread that created the tree',
]


def checks(w, before, after, exc, refused, name, args):
    out = w.tree_conds(after, label='after ' + name)
    if name in DEL:
        out.append(('deleting raises no error', exc is None))
        for i in range(w.n):
            out.append(('what remains below %d keeps its order' % i,
                        order_kept(before.children[i], after.children[i])))
        out.append(('what remains at the top keeps its order',
                    order_kept(before.root, after.root)))
    out += w.struct_conds(after)
    return out


def events(m):
    """The complete view reports each deleted node exactly once, and no other."""
    def run(ctx):
        args = draw_args(ctx, 1)[0]
        w = World(ctx, m)
        w.build(m)
        gone = []
        w.tree.get_main_view().register_cllbck(
            'node-deleted', lambda nid, path: gone.append(w.index(nid)))
        name = ctx.choice('op', DEL)
        before = w.observe()
        exc, _ = w.step(name, args[0])
        after = w.observe()
        lost = [i for i in before.all if i not in after.all]
        ctx.check([('no error', exc is None),
                   ('each deleted node is reported once',
                    sorted(gone) == sorted(lost))], lambda: (gone, lost))
        ctx.check_memo((w.key, after.sig), lambda: w.tree_conds(after))
        for i in lost:
            try:
                w.tree.get_node(ctx.ids[i])
                found = True
            except ValueError:
                found = False
            ctx.check([('a deleted node is not found', not found)])
        if len(lost) > 2:
            ctx.cover('several nodes deleted')
    return run


SCENARIOS = [
    Scenario('n4-1op', edits(4, [DEL], checks, orders=('fwd', 'rev', 'revp'), spare=1),
             5, 'every acyclic relation on 4 nodes, 1 deletion (possibly of an '
             'unknown identifier)', covers=['delete done', 'delete_rec done']),
    Scenario('n5-1op', edits(5, [DEL], checks, orders=('fwd', 'rev')), 5,
             'every acyclic relation on 5 nodes, 1 deletion'),
    Scenario('large', large(edits(12, [DEL, DEL], checks), LARGE), 12,
             '12 nodes in one of 7 large shapes (chain, star, funnel, ladder, tree, '
             'waist, no relation), 2 deletions'),
    Scenario('n4-2del', edits(4, [DEL, DEL], checks), 4,
             'every acyclic relation on 4 nodes, 2 deletions'),
    Scenario('n3-del-add', edits(3, [DEL, ADD], checks, spare=1), 4,
             '3 nodes, a deletion, then an addition (new node, a new node under '
             'a deleted identifier, or the deleted object)'),
    Scenario('n3-edit-del', edits(3, [REL, DEL], checks, spare=1), 4,
             '3 nodes, an edit (a late one included), then a deletion'),
    Scenario('n3-del-add-rel', edits(3, [DEL, ['add_node', 'readd'], REL], checks), 3,
             '3 nodes, a deletion, the identifier comes back, then an edit'),
    Scenario('events4', events(4), 4,
             'every acyclic relation on 4 nodes, 1 deletion, deletion events',
             covers=['several nodes deleted']),
    Scenario('n3-late-del-add', edits(2, [['add_child', 'add_parent'], DEL, ADD[:4]],
                                      checks, spare=1), 3,
             '2 nodes, a late relationship, a deletion, an addition'),
    Scenario('n1-late-del-2add', edits(1, [['add_child', 'add_parent'], DEL,
                                           ['add_node', 'readd'],
                                           ['add_node', 'readd']], checks,
                                       spare=1), 2,
             'a node, a late relationship, a deletion, two additions'),
    Scenario('n2-late-delrec', edits(2, [['add_child', 'add_parent'], ['delete_rec'],
                                         ['add_node', 'readd'], ['add_node', 'readd']],
                                     checks, spare=1), 3,
             '2 nodes, a late relationship of either, a recursive deletion, two additions'),
    Scenario('n4-edit-del', edits(4, [REL, DEL], checks), 4,
             '4 nodes, an edit, a deletion', tiers=('thorough',)),
    Scenario('n4-del-add', edits(4, [DEL, ADD], checks), 4,
             '4 nodes, a deletion, an addition', tiers=('thorough',)),
    Scenario('n3-late-del-add-add', edits(3, [['add_child', 'add_parent'], DEL,
                                              ['add_node', 'readd'],
                                              ['add_node', 'readd']],
                                          checks, spare=1), 4,
             '3 nodes, a late relationship, a deletion, two additions',
             tiers=('thorough',)),
    Scenario('events5', events(5), 5,
             'every acyclic relation on 5 nodes, 1 deletion, deletion events',
             tiers=('thorough',)),
]
