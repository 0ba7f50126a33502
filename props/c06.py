"""C06: a filtered view shows exactly the accepted nodes, in place."""
from harness.scenario import Scenario
from harness.views import vedits
from harness.world import LARGE7, large

EDIT = ['toggle', 'add_parent', 'move', 'remove_parent', 'move_root', 'delete',
        'delete_rec']
ADD = ['add_node', 'add_node_parent', 'ctor_parent', 'ctor_child']
READD = ['add_node', 'readd', 'add_node_parent']
OWN = [('own',)]
STRUCT = [('leaf',), ('ownleaf',), ('top',)]
FLAT = [('own+flat',), ('ownleaf+flat',)]
MIX = [('own', 'leaf'), ('own', 'other+flat'), ('own+neg',), ('own+flat', 'other')]
BEFORE = ('before', 'after')

ASSUMPTIONS = [
    'node identifiers are non-empty strings other than the reserved root names',
    'filters are deterministic functions of which parents and children the node '
    'has and of the data of the node, of its children or (view not flat) of its '
    'descendants; whoever changes the data of a node refreshes that node',
    'late relationships do not contradict each other',
    'requests are made from the thread that created the tree',
]


DEEP = {(0, 2), (1, 2), (0, 3), (2, 3), (3, 4), (3, 5), (4, 5)}


def S(name, fn, n, bounds, **kw):
    kw.setdefault('sym_sets', True)
    return Scenario(name, fn, n, bounds, **kw)


T = ('thorough',)
SCENARIOS = [
    S('n4-own', vedits(4, [EDIT], OWN), 4,
      '4 nodes, any acyclic relation, data filter, 1 operation',
      covers=['toggle done', 'delete done', 'move done']),
    S('n3-own-2', vedits(3, [EDIT, EDIT], OWN), 3,
      '3 nodes, any acyclic relation, data filter, 2 operations'),
    S('n3-struct-1', vedits(3, [EDIT + ['add_child', 'refresh', 'refresh_all',
                                        'no_children', 'no_parents']],
                            STRUCT + FLAT + MIX + [()], when=BEFORE), 3,
      '3 nodes, filters on structure, flat and combined filters, view made '
      'before or after, 1 operation'),
    S('n4-none', vedits(4, [EDIT], [(), ('leaf',), ('top',)], when=('before',)), 4,
      '4 nodes, no filter or structural filters, 1 operation'),
    S('n3-none-2', vedits(3, [EDIT, EDIT], [(), ('leaf',), ('top',)]), 3,
      '3 nodes, no filter or structural filters, 2 operations'),
    S('n3-add', vedits(2, [ADD, EDIT], [('own',), ()], spare=1), 3,
      '2 nodes, an addition (late relationships included), an edit'),
    S('n3-add-struct', vedits(3, [ADD], STRUCT + FLAT + MIX, spare=1), 4,
      '3 nodes, an addition (late relationships included)'),
    S('n3-late-add', vedits(2, [['add_child', 'add_parent'], ADD[:3]],
                            [('own',), ('leaf',), ('top',)], spare=1), 3,
      '2 nodes, a late relationship, an addition'),
    S('n2-del-add', vedits(2, [['delete', 'delete_rec'], READD], [('own',), ()],
                           spare=1), 3,
      '2 nodes, a deletion, an addition (possibly of the deleted object)'),
    S('n4-rec', vedits(4, [['toggle', 'delete', 'move']], [('anyd',)]), 4,
      '4 nodes, any acyclic relation, recursive filter, 1 operation'),
    S('n3-rec', vedits(3, [EDIT + ADD], [('anyd',)], spare=1), 4,
      '3 nodes, any acyclic relation, recursive filter, 1 operation or addition'),
    S('n3-kidd', vedits(3, [EDIT], [('kidd',)], when=BEFORE), 3,
      '3 nodes, filter on the data of children, 1 operation'),
    S('n6-deep', vedits(6, [['add_parent', 'remove_parent', 'delete']], [()],
                        allowed=DEEP), 6,
      '6 nodes on four levels, two parents possible on two of them, no filter, '
      '1 operation'),
    S('large', large(vedits(7, [EDIT], [('own',), (), ('anyd',)]), LARGE7, few=1), 7,
      '7 nodes in one of 6 large shapes (chain, star, funnel, tree, waist, ladder), '
      'at most 1 node not matching, 1 operation', sym_sets=False),
    S('hidden7', large(vedits(7, [['toggle', 'add_parent']], [('ownleaf', 'other'), ('other', 'kidd')]),
                       ['funnel7', 'star7', 'waist7'], few=1, colours='fg'), 7,
      '7 nodes in one of 3 large shapes, at most 1 hidden node, parents depend on its data, '
      '1 operation', sym_sets=False),
    S('n4-kidd', vedits(4, [EDIT], [('kidd',)]), 4,
      '4 nodes, filter on the data of children, 1 operation', tiers=T),
    S('n3-kidd-2', vedits(3, [EDIT, EDIT], [('kidd',)]), 3,
      '3 nodes, filter on the data of children, 2 operations', tiers=T),
    S('n3-batch', vedits(3, [['batch']], [('own',), ('anyd',), ('ownleaf',),
                     ('own+flat',), ('own', 'leaf')]), 3,
      '3 nodes, any set of them changes at once and is refreshed in any of 3 orders'),
    S('n4-batch', vedits(4, [['batch']], [('own',), ('anyd',), ('ownleaf',)]), 4,
      '4 nodes, any set of them changes at once', tiers=T),
    S('n3-batch-2', vedits(3, [['batch'], ['toggle', 'move', 'delete']],
                       [('own',), ('anyd',)]), 3,
      '3 nodes, any set of them changes at once, 1 operation', tiers=T),
    S('n3-rec-2', vedits(3, [EDIT, EDIT], [('anyd',)]), 3,
      '3 nodes, recursive filter, 2 operations', tiers=T),
    S('n4-rec-1', vedits(4, [EDIT], [('anyd',), ('anyd', 'other')]), 4,
      '4 nodes, recursive filter, 1 operation', tiers=T),
    S('n4-own-2', vedits(4, [EDIT, EDIT], OWN), 4,
      '4 nodes, data filter, 2 operations', tiers=T),
    S('n4-struct', vedits(4, [EDIT], STRUCT + FLAT + MIX, when=BEFORE), 4,
      '4 nodes, structural, flat and combined filters, 1 operation', tiers=T),
    S('n3-struct-2', vedits(3, [EDIT, EDIT], STRUCT + FLAT + MIX[:2]), 3,
      '3 nodes, structural, flat and combined filters, 2 operations', tiers=T),
    S('n3-own-3', vedits(3, [EDIT] * 3, OWN), 3,
      '3 nodes, data filter, 3 operations', tiers=T),
    S('n3-add-edit', vedits(3, [ADD, EDIT], OWN + STRUCT + FLAT, spare=1), 4,
      '3 nodes, an addition, an edit', tiers=T),
    S('n3-del-add', vedits(3, [['delete', 'delete_rec', 'toggle'], READD], OWN,
                           spare=1), 4,
      '3 nodes, a deletion, an addition', tiers=T),
    S('n5-own', vedits(5, [EDIT], OWN), 5,
      '5 nodes, any acyclic relation, data filter, 1 operation', tiers=T),
]
