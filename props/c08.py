"""C08: applying and removing filters."""
from harness.core import draw_args
from harness.logic import And, Or, Not, Iff
from harness.views import VWorld, Mirror, observe_view, mirror_conds
from harness.world import LARGE7, large, OPS
from props.c16 import gone
from props.c06 import S, T, ASSUMPTIONS as A6

ASSUMPTIONS = A6 + [
    'between a filter change made without refresh and the next refresh nothing '
    'is claimed but that the view stays as it is',
]


class Setup(object):
    """The filters applied to one view, and what they stand for."""

    def __init__(self, w, view, inplace=False):
        self.w = w
        self.view = view
        self.applied = []
        self.par = {'want': True}      # parameters of the filter 'par'
        # one dictionary the caller changes and hands over again, or new ones
        self.own = {'want': True} if inplace else None
        w.tree.add_filter('par', self.par_func, self.own or {'want': True})

    def par_func(self, node, parameters=None):
        want = parameters['want'] if parameters else 'no parameters'
        return self.w.data(self.w.index(node.get_id())) == want

    def kinds(self):
        out = []
        for a in self.applied:
            if a == 'par':
                out.append(('own' if self.par['want'] else 'own+neg'))
                if self.par.get('flat'):
                    out.append('all+flat')
            else:
                out.append(a)
        return tuple(out)

    def name(self, f):
        return f if f == 'par' else self.w.filter(f)

    def apply(self, f, params=None, reset=False, refresh=True):
        kw = {}
        if params is not None:
            if self.own is not None:
                self.own.clear()
                self.own.update(params)
            kw['parameters'] = dict(params) if self.own is None else self.own
        if reset:
            kw['reset'] = True
        if not refresh:
            kw['refresh'] = False
        self.view.apply_filter(self.name(f), **kw)
        if reset:
            self.applied = []
        if params is not None:
            self.par = dict(params)
        if f not in self.applied:
            self.applied.append(f)

    def unapply(self, f, refresh=True):
        if refresh:
            self.view.unapply_filter(self.name(f))
        else:
            self.view.unapply_filter(self.name(f), refresh=False)
        if f in self.applied:
            self.applied.remove(f)

    def reset(self, refresh=True):
        if refresh:
            self.view.reset_filters()
        else:
            self.view.reset_filters(refresh=False)
        self.applied = []


PARS = [{'want': True}, {'want': False, 'flat': False}, {'want': True, 'flat': True}]


def filter_step(ctx, s, st, funcs, refreshing):
    """one symbolic change of the filters; returns (label, refreshed)"""
    how = ctx.choice('how%d' % s, ['apply', 'unapply', 'reset'])
    refresh = True if refreshing else ctx.decide('refresh%d' % s)
    if how == 'reset':
        st.reset(refresh)
        return how, refresh
    f = ctx.choice('flt%d' % s, funcs)
    if how == 'unapply':
        was = f in st.applied
        st.unapply(f, refresh)
        # removing a filter that is not applied changes nothing
        return how, refresh if was else None
    params = None
    if f == 'par':
        params = ctx.choice('par%d' % s, [None] + PARS)
    reset = ctx.decide('reset%d' % s)
    was = f in st.applied
    left = [x for x in st.applied if x != f]
    st.apply(f, params, reset, refresh)
    if was and params is None and not reset:
        ctx.cover('applied twice')
        return how, None
    return how, refresh


def filters(m, nops, funcs, edits=(), start=((),), before=False, inplace=False):
    def run(ctx):
        args = draw_args(ctx, 1)
        w = VWorld(ctx, m)
        if not before:
            w.build(m)
        view = w.tree.get_viewtree(
            refresh=ctx.decide('fresh') if not before else True)
        live = ctx.decide('fresh') if not before else True
        if before:
            w.build(m)
        st = Setup(w, view, inplace)
        mir = Mirror(w, view)
        if live:
            view.get_current_state()
        for f in ctx.choice('start', list(start)):
            st.apply(f)
            live = True
        stale = not live
        o = observe_view(w, view)
        if live:
            verify(ctx, w, view, st, mir, o, 'initially')
        else:
            ctx.check([('a view made without refresh is empty', not o.all)])
        mir.clear()
        for s in range(nops):
            if s == nops - 1 and edits and not stale:
                op = ctx.choice('op', ['no'] + list(edits))
                if op != 'no':
                    exc, refused = w.step(op, *args[0][:OPS[op]])
                    ctx.check([('no error', Iff(exc is not None, refused))],
                              lambda: repr(exc))
                    o = observe_view(w, view)
                    verify(ctx, w, view, st, mir, o, 'after ' + op)
                    mir.clear()
            prev = o
            applied = list(st.applied)
            how, refreshed = filter_step(ctx, s, st, funcs, False)
            ctx.trace.append((how, applied, st.applied, st.par, refreshed))
            o = observe_view(w, view)
            if refreshed:
                stale = False
                ctx.cover(how)
            elif refreshed is False:
                stale = True
            if stale:
                ctx.cover('no refresh')
                ctx.check([('without refresh the view stays as it is',
                            o.sig == prev.sig and not mir.events),
                           ('applied filters are listed', view.list_applied_filters()
                            == [st.name(f) for f in st.applied])],
                          lambda: (prev.sig, o.sig, mir.events))
            else:
                verify(ctx, w, view, st, mir, o, 'after ' + how)
            mir.clear()
    return run


def verify(ctx, w, view, st, mir, o, label):
    kinds = st.kinds()
    lst = view.list_applied_filters()
    ok = lst == [st.name(f) for f in st.applied]
    ctx.check_memo(('flt', w.key, kinds, o.sig, ok, tuple(sorted(mir.rows)),
                    bool(mir.errors)),
                   lambda: [('applied filters are listed in order', ok)] +
                   w.view_conds(o, kinds, label) + mirror_conds(w, mir, o, label),
                   lambda: 'filters %s (%s)\nview %s\nrows %s' % (
                       st.applied, kinds, o.sig, mir.rows))


def static(m):
    """The complete view cannot be filtered."""
    def run(ctx):
        w = VWorld(ctx, m)
        w.build(m)
        v = w.tree.get_main_view()
        name = w.filter('own')
        before = w.observe()
        how = ctx.choice('how', ['apply', 'unapply', 'reset'])
        f = {'apply': lambda: v.apply_filter(name),
             'unapply': lambda: v.unapply_filter(name),
             'reset': lambda: v.reset_filters()}[how]
        if ctx.decide('counted'):
            v.get_n_nodes()
        listed = []
        w.do_raw('list', lambda: listed.append(v.list_applied_filters()))
        ctx.check([('the complete view lists no filters', listed == [[]])])
        exc = w.do_raw(how, f)
        after = w.observe()
        ctx.check([('filtering the complete view is refused', exc is not None),
                   ('and changes nothing', before.sig == after.sig and
                    v.get_n_nodes() == m and
                    sorted(map(w.index, v.get_all_nodes())) == list(range(m)))],
                  lambda: (how, before.sig, after.sig))
    return run


SCENARIOS = [
    S('n2-2ops', filters(2, 2, ['own', 'other', 'par'], start=[(), ('own',)]), 2,
      '2 nodes, 2 filter changes (with or without reset, refresh, parameters)',
      covers=['apply', 'unapply', 'reset', 'no refresh', 'applied twice']),
    S('n3-1op', filters(3, 1, ['own', 'leaf', 'par'],
                        start=[('own',), ('par', 'own+flat')],
                        edits=['toggle', 'move']), 3,
      '3 nodes, any acyclic relation, filters applied, an edit, a filter change'),
    S('n2-3ops', filters(2, 3, ['par']), 2,
      '2 nodes, 3 filter changes'),
    S('n3-1op-more', filters(3, 1, ['own', 'leaf', 'par', 'own+flat'],
                        start=[(), ('own',), ('par', 'other'), ('own+flat', 'leaf')],
                        edits=['toggle', 'move', 'delete']), 3,
      '3 nodes, filters applied, an edit, a filter change', tiers=T),
    S('large', large(filters(7, 1, ['own', 'leaf', 'own+flat'], start=[('own',), ()]),
                     LARGE7, few=1), 7,
      '7 nodes in one of 6 large shapes, at most 1 node not matching, a filter change',
      sym_sets=False),
    S('inplace', filters(2, 2, ['par'], start=[(), ('par',)], inplace=True), 2,
      '2 nodes, 2 filter changes, parameters changed in place and given again'),
    S('gone', gone(2), 2, '2 nodes, a filter leaves the bank while a view uses it, '
      'perhaps it comes back, then a filter change or refresh'),
    S('static', static(2), 2, 'the complete view refuses filters'),
    S('n3-2ops', filters(3, 2, ['own', 'other', 'leaf', 'par', 'own+flat'],
                         start=[(), ('own',)], edits=['toggle', 'move', 'delete']), 3,
      '3 nodes, a filter change, an edit, a filter change', tiers=T),
    S('n4-1op', filters(4, 1, ['own', 'leaf', 'own+flat', 'par'],
                        start=[(), ('own',)], edits=['toggle', 'move']), 4,
      '4 nodes, an edit, a filter change', tiers=T),
    S('n2-3ops-more', filters(2, 3, ['own', 'other', 'par', 'own+flat'],
                              start=[(), ('own',)]), 2,
      '2 nodes, 3 filter changes', tiers=T),
]
