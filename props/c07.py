"""C07: the events of a view rebuild it exactly."""
from harness.core import draw_args
from harness.scenario import Scenario
from harness.views import (vedits, VWorld, Mirror, observe_view, mirror_conds, OPS)
from props.c06 import LARGE7, large, DEEP, ASSUMPTIONS, EDIT, ADD, READD, OWN, STRUCT, FLAT, MIX, BEFORE, S, T


def ev(*a, **kw):
    return vedits(*a, contents=False, events=True, **kw)


def refilter(m, kindsets, nops):
    """Filters come and go on a live view; the listener follows."""
    def run(ctx):
        args = draw_args(ctx, 1)
        w = VWorld(ctx, m)
        w.build(m)
        view = w.tree.get_viewtree()
        mir = Mirror(w, view)
        view.get_current_state()
        applied = []
        for s in range(nops):
            kind = ctx.choice('flt%d' % s, kindsets)
            how = ctx.choice('how%d' % s, ['apply', 'reset+apply', 'unapply',
                                           'reset', 'edit'])
            if how == 'edit':
                if s != 1:
                    return
                w.step(ctx.choice('op', ['toggle', 'delete', 'move']),
                       *(args[0][:1] if ctx.choice('op', ['toggle', 'delete', 'move'])
                         != 'move' else args[0]))
            else:
                exc = w.do_raw((how, kind), lambda: act(view, how, w.filter(kind)))
                ctx.check([('no error', exc is None)], lambda: repr(exc))
            o = observe_view(w, view)
            ctx.check(mirror_conds(w, mir, o, 'after ' + how),
                      lambda: (o.sig, mir.rows, mir.errors, mir.events))
            mir.clear()
            ctx.cover(how)
    return run


def act(view, how, name):
    if how == 'apply':
        view.apply_filter(name)
    elif how == 'reset+apply':
        view.apply_filter(name, reset=True)
    elif how == 'unapply':
        view.unapply_filter(name)
    else:
        view.reset_filters()


SCENARIOS = [
    S('n4-own', ev(4, [EDIT], OWN), 4,
      '4 nodes, any acyclic relation, data filter, 1 operation',
      covers=['toggle done', 'delete done', 'move done']),
    S('n3-own-2', ev(3, [EDIT, EDIT], OWN), 3,
      '3 nodes, any acyclic relation, data filter, 2 operations'),
    S('n3-struct-1', ev(3, [EDIT + ['add_child', 'refresh', 'no_children',
                                    'no_parents']],
                        STRUCT + FLAT + MIX[:2] + [()], when=BEFORE), 3,
      '3 nodes, filters on structure, flat and combined filters, view made '
      'before or after, 1 operation'),
    S('n4-none', ev(4, [EDIT], [(), ('leaf',), ('top',)], when=('before',)), 4,
      '4 nodes, no filter or structural filters, 1 operation'),
    S('n3-none-2', ev(3, [EDIT, EDIT], [(), ('leaf',), ('top',)]), 3,
      '3 nodes, no filter or structural filters, 2 operations'),
    S('n3-add', ev(2, [ADD, EDIT], [('own',), ()], spare=1), 3,
      '2 nodes, an addition (late relationships included), an edit'),
    S('n3-add-struct', ev(3, [ADD], [('own',), ('ownleaf',), ('own+flat',)], spare=1), 4,
      '3 nodes, an addition (late relationships included)'),
    S('n2-del-add', ev(2, [['delete', 'delete_rec'], READD], [('own',), ()],
                       spare=1), 3,
      '2 nodes, a deletion, an addition (possibly of the deleted object)'),
    S('n6-deep', ev(6, [['add_parent', 'remove_parent', 'toggle']], [()],
                    allowed=DEEP), 6,
      '6 nodes on four levels, two parents possible on two of them, no filter, '
      '1 operation'),
    S('large', large(ev(7, [EDIT], [('own',), (), ('anyd',)]), LARGE7, few=1), 7,
      '7 nodes in one of 6 large shapes (chain, star, funnel, tree, waist, ladder), '
      'at most 1 node not matching, 1 operation', sym_sets=False),
    S('refilter', refilter(3, ['own', 'leaf', 'own+flat'], 2), 3,
      '3 nodes, 2 filter changes (apply, unapply, reset) or an edit',
      covers=['apply', 'reset+apply', 'unapply', 'reset', 'edit']),
    S('n4-rec', ev(4, [['toggle', 'delete', 'move']], [('anyd',)]), 4,
      '4 nodes, any acyclic relation, recursive filter, 1 operation'),
    S('n3-rec', ev(3, [EDIT + ADD], [('anyd',)], spare=1), 4,
      '3 nodes, any acyclic relation, recursive filter, 1 operation or addition'),
    S('n3-batch', ev(3, [['batch']], [('own',), ('anyd',), ('ownleaf',),
                     ('own+flat',), ('own', 'leaf')]), 3,
      '3 nodes, any set of them changes at once and is refreshed in any of 3 orders'),
    S('n4-batch', ev(4, [['batch']], [('own',), ('anyd',), ('ownleaf',)]), 4,
      '4 nodes, any set of them changes at once', tiers=T),
    S('n3-batch-2', ev(3, [['batch'], ['toggle', 'move', 'delete']],
                       [('own',), ('anyd',)]), 3,
      '3 nodes, any set of them changes at once, 1 operation', tiers=T),
    S('n3-rec-2', ev(3, [EDIT, EDIT], [('anyd',)]), 3,
      '3 nodes, recursive filter, 2 operations', tiers=T),
    S('n4-rec-1', ev(4, [EDIT], [('anyd',), ('anyd', 'other')]), 4,
      '4 nodes, recursive filter, 1 operation', tiers=T),
    S('n4-own-2', ev(4, [EDIT, EDIT], OWN), 4,
      '4 nodes, data filter, 2 operations', tiers=T),
    S('n4-struct', ev(4, [EDIT], STRUCT + FLAT + MIX, when=BEFORE), 4,
      '4 nodes, structural, flat and combined filters, 1 operation', tiers=T),
    S('n3-struct-2', ev(3, [EDIT, EDIT], STRUCT + FLAT + MIX[:2]), 3,
      '3 nodes, structural, flat and combined filters, 2 operations', tiers=T),
    S('n3-own-3', ev(3, [EDIT] * 3, OWN), 3,
      '3 nodes, data filter, 3 operations', tiers=T),
    S('n3-add-edit', ev(3, [ADD, EDIT], OWN + STRUCT + FLAT, spare=1), 4,
      '3 nodes, an addition, an edit', tiers=T),
    S('n5-own', ev(5, [EDIT], OWN), 5,
      '5 nodes, any acyclic relation, data filter, 1 operation', tiers=T),
    S('refilter4', refilter(4, ['own', 'leaf', 'own+flat', 'other'], 3), 4,
      '4 nodes, 3 filter changes or an edit', tiers=T),
]
