"""C02: both ends of every relationship agree."""
from harness.core import edits, draw_args
from harness.logic import And, Or, Not, Iff, Implies
from harness.scenario import Scenario
from harness.world import World, LARGE, large

ALL = ['add_parent', 'add_child', 'move', 'set_parent', 'remove_parent',
       'move_root', 'delete', 'delete_rec', 'no_children', 'no_parents']
ADD = ['add_node', 'add_node_parent', 'ctor_parent', 'ctor_child']

ASSUMPTIONS = [
    'node identifiers are non-empty strings other than the reserved root names',
    'requests are made from the thread that created the tree',
]


def checks(w, before, after, exc, refused, name, args):
    return w.struct_conds(after) + path_conds(w, after)


def path_conds(w, o):
    return []


SCENARIOS = [
    Scenario('n4-1op', edits(4, [ALL], checks, orders=('fwd', 'rev', 'revp')), 4,
             'every acyclic relation on 4 nodes, 1 operation',
             covers=['delete done', 'delete_rec done', 'move refused']),
    Scenario('n3-2ops', edits(3, [ALL, ALL], checks), 3,
             'every acyclic relation on 3 nodes, 2 operations'),
    Scenario('n3-del-add', edits(3, [['delete', 'delete_rec', 'add_child',
                                      'add_parent', 'remove_parent'],
                                     ADD + ['readd', 'readd_parent']],
                                 checks, spare=1), 4,
             '3 nodes, 1 deletion or edit (a late one included), then a node '
             '(new, deleted before, or the deleted object) is added'),
    Scenario('n5-1op', edits(5, [['delete', 'delete_rec', 'move_root',
                                  'no_children', 'no_parents']], checks), 5,
             'every acyclic relation on 5 nodes, 1 operation'),
    Scenario('large', large(edits(12, [ALL], checks), LARGE), 12,
             '12 nodes in one of 7 large shapes (chain, star, funnel, ladder, tree, '
             'waist, no relation), 1 operation'),
    Scenario('n4-2ops', edits(4, [ALL, ALL], checks), 4,
             'every acyclic relation on 4 nodes, 2 operations',
             tiers=('thorough',)),
    Scenario('n5-all', edits(5, [ALL], checks, orders=('fwd', 'rev')), 5,
             'every acyclic relation on 5 nodes, 1 operation', tiers=('thorough',)),
    Scenario('n3-3ops', edits(3, [ALL[:8]] * 3, checks), 3,
             'every acyclic relation on 3 nodes, 3 operations',
             tiers=('thorough',)),
    Scenario('n3-del-add-edit', edits(3, [['delete', 'delete_rec', 'add_child',
                                           'add_parent'],
                                          ADD + ['readd', 'readd_parent'],
                                          ['move', 'delete', 'add_parent']],
                                      checks, spare=1), 4,
             '3 nodes, a deletion or late edit, an addition, another edit',
             tiers=('thorough',)),
]
