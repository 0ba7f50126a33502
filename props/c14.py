"""C14: views by name, independence of views."""
from harness.core import draw_args
from harness.logic import And, Or, Not, Iff, Count
from harness.views import VWorld, Mirror, observe_view, mirror_conds
from harness.world import OPS
from props.c06 import S, T, ASSUMPTIONS as A6

ASSUMPTIONS = A6 + [
    'parameters belong to a filter, not to a view: changing them through one view '
    'is outside this property',
]

NAMES = ['a', 'A', None, 'main']


def registry(m, nreq, names, kinds=('view', 'count')):
    """a symbolic history of requests for views and counters by name"""
    def run(ctx):
        w = VWorld(ctx, m)
        w.build(m)
        known = {('view', 'main'): w.tree.get_main_view()}
        every = [known['view', 'main']]
        for s in range(nreq):
            what = ctx.choice('what%d' % s, list(kinds))
            name = ctx.choice('name%d' % s, names)
            refresh = ctx.decide('refresh%d' % s)
            f = w.tree.get_viewtree if what == 'view' else w.tree.get_viewcount
            exc = w.do_raw((what, name, refresh), lambda: (
                f(name=name, refresh=refresh) if name is not None
                else f(refresh=refresh)))
            got = w.returned
            ctx.check([('no error', exc is None)], lambda: repr(exc))
            old = known.get((what, name)) if name is not None else None
            if old is not None:
                ctx.check([('the same name gives the same %s' % what, got is old)])
                ctx.cover('found again')
            else:
                ctx.check([('a new %s' % what, all(got is not o for o in every))])
                if name is not None:
                    known[what, name] = got
                every.append(got)
                if what == 'view':
                    o = observe_view(w, got)
                    ctx.check([('a new view is complete iff refreshed',
                                (sorted(o.all) == list(range(m))) if refresh
                                else not o.all),
                               ('base tree', got.get_basetree() is w.tree)],
                              lambda: o.sig)
                elif refresh:
                    ctx.check([('a new counter counts', got.get_n_nodes() == m)])
        ctx.check([('the complete view stays', w.tree.get_main_view()
                    is known['view', 'main'])])
    return run


PAIRS = [(('own',), ('other',)), (('own',), ()), (('leaf',), ('own+flat',)),
         (('anyd',), ('own+neg',))]


def independent(m, ops, pairs, spare=0, change=True, named=(True, False)):
    """two views, a counter and the complete view live side by side"""
    k = len(ops)

    def run(ctx):
        args = draw_args(ctx, k)
        w = VWorld(ctx, m + spare)
        w.build(m)
        pair = ctx.choice('filters', pairs)
        nm = ctx.choice('named', list(named))
        views = []
        for j, kinds in enumerate(pair):
            kw = {'name': 'v%d' % j} if nm else {}
            v = w.tree.get_viewtree(refresh=not kinds, **kw)
            for kd in kinds:
                v.apply_filter(w.filter(kd))
            mir = Mirror(w, v)
            v.get_current_state()
            views.append([v, list(kinds), mir])
        vc = w.tree.get_viewcount(**({'name': 'v0'} if nm else {}))
        vc.apply_filter(w.filter('own'))

        def check(label):
            obs = [observe_view(w, v) for v, _, _ in views]
            t = w.observe()
            num = vc.get_n_nodes()
            # plain questions, twice each: one view must not hear of the others
            plain = [(v.get_n_nodes(), len(v.get_nodes())) for _ in (0, 1)
                     for v, _, _ in views]
            key = ('ind', w.key, tuple(tuple(x[1]) for x in views),
                   tuple(o.sig for o in obs), t.sig, num, tuple(plain),
                   tuple(bool(x[2].errors) for x in views),
                   tuple(tuple(sorted(x[2].rows)) for x in views))

            def mk():
                out = []
                for (v, kinds, mir), o in zip(views, obs):
                    out += w.view_conds(o, kinds, label)
                    out += mirror_conds(w, mir, o, label)
                    out.append(('filters of the view', v.list_applied_filters() == kinds))
                out.append(('every view counts its own nodes', plain == 2 * [
                    (len(o.all), len(o.all)) for o in obs]))
                out += w.tree_conds(t, label='complete view ' + label)
                out += w.struct_conds(t)
                out.append(('counter', Or(w.model.undef, Count(
                    [And(p, f) for p, f in zip(w.model.pres, w.D['f'])]) == num)))
                return out
            ctx.check_memo(key, mk, lambda: '%s %s\n%s' % (
                label, [x[1] for x in views], [o.sig for o in obs]))
        check('initially')
        for s in range(k):
            op = ctx.choice('op%d' % s, ops[s])
            if op == 'filter':
                j = ctx.choice('which%d' % s, [0, 1])
                v, kinds, mir = views[j]
                what = ctx.choice('how%d' % s, ['reset', 'apply', 'unapply', 'all'])
                ctx.trace.append((op, j, what))
                if what == 'reset':
                    v.reset_filters()
                    views[j][1] = []
                elif what == 'all':
                    # all are reset, one gets a filter again
                    for x in views:
                        x[0].reset_filters()
                        x[1] = []
                    v.apply_filter(w.filter('top'))
                    views[j][1] = ['top']
                elif what == 'apply':
                    v.apply_filter(w.filter('top'))
                    views[j][1] = kinds + [] if 'top' in kinds else kinds + ['top']
                else:
                    if not kinds:
                        return
                    v.unapply_filter(kinds[0])
                    views[j][1] = kinds[1:]
            else:
                exc, refused = w.step(op, *args[s][:OPS[op]])
                ctx.check([('no error', Or(w.model.undef,
                                           Iff(exc is not None, refused)))],
                          lambda: repr(exc))
            check('after ' + op)
            ctx.cover(op)
    return run


EDIT = ['toggle', 'move', 'add_parent', 'delete', 'filter']
SCENARIOS = [
    S('names3', registry(1, 3, NAMES), 1,
      '3 requests for views or counters by symbolic names', covers=['found again']),
    S('names4', registry(1, 4, ['a', None, '']), 1,
      '4 requests for views', covers=['found again']),
    S('two3', independent(3, [EDIT], PAIRS), 3,
      '3 nodes, any acyclic relation, two views with different filters, a counter, '
      'the complete view, 1 operation or filter change',
      covers=['toggle', 'move', 'delete', 'filter']),
    S('two2-2', independent(2, [EDIT + ['add_node']] * 2, PAIRS[:3], spare=1,
                            named=(True,)), 3,
      '2 nodes, 1 more that may be added, 2 operations or filter changes'),
    S('two4', independent(4, [EDIT], PAIRS[:2]), 4,
      '4 nodes, 1 operation or filter change', tiers=T),
    S('two3-2', independent(3, [EDIT] * 2, PAIRS), 3,
      '3 nodes, 2 operations or filter changes', tiers=T),
    S('names5', registry(1, 5, ['a', 'b', None], kinds=('view',)), 1,
      '5 requests', tiers=T),
]
