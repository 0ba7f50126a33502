"""C16: the bank of filters."""
from harness.core import draw_args
from harness.logic import And, Or, Not, Iff
from harness.views import VWorld, observe_view
from harness.world import OPS
from props.c06 import S, T

ASSUMPTIONS = [
    'node identifiers are non-empty strings other than the reserved root names',
    'filters are deterministic functions of the data of the node and of the '
    'parameters they are given',
    'a name with a leading exclamation mark stands for the name without it',
]

NAMES = ['p', 'q', '!p']
PARAMS = [None, {'negate': True}, {'negate': False, 'k': 1}, {'k': 2}]


def plain(name):
    return name[1:] if name.startswith('!') else name


class Func(object):
    """a filter function that checks what it is called with"""

    def __init__(self, w, colour, params):
        self.w = w
        self.colour = colour
        self.params = params
        self.answers = None
        self.bad = []

    def __call__(self, *args, **kw):
        if len(args) != 1:
            self.bad.append(('arguments', len(args)))
        node = args[0]
        want = {} if not self.params else {'parameters': self.params}
        if kw != want:
            self.bad.append(('parameters', kw, want))
        if node is not self.w.tree.get_node(node.get_id()):
            self.bad.append('not the node of the tree')
        answer = self.w.data(self.w.index(node.get_id()), self.colour)
        if self.answers is None:
            return answer
        # something that is no bool
        return self.answers[0] if answer else self.answers[1]


def bank(m, nops, names, params, use=True):
    """a symbolic history of the bank next to a dictionary"""
    def run(ctx):
        w = VWorld(ctx, m)
        w.build(m)
        known = {}                       # name -> (colour, negate, Func)
        funcs = []
        order = []
        for s in range(nops):
            op = ctx.choice('op%d' % s, ['add', 'remove'])
            name = ctx.choice('name%d' % s, names)
            if op == 'add':
                par = ctx.choice('par%d' % s, params)
                colour = ctx.choice('col%d' % s, ['f', 'g'])
                f = Func(w, colour, par)
                funcs.append(f)
                if par is None and ctx.decide('short%d' % s):
                    exc = w.do_raw((op, name), lambda: w.tree.add_filter(name, f))
                else:
                    exc = w.do_raw((op, name, par), lambda: w.tree.add_filter(
                        name, f, None if par is None else dict(par)))
                fresh = plain(name) not in known
                ctx.check([('adding raises nothing', exc is None),
                           ('added iff the name is new', bool(w.returned) == fresh)],
                          lambda: (name, exc, w.returned))
                if fresh:
                    known[plain(name)] = f
                    order.append(plain(name))
                else:
                    ctx.cover('not replaced')
            else:
                if name.startswith('!') and name not in known:
                    return          # not said which filter that means
                exc = w.do_raw((op, name), lambda: w.tree.remove_filter(name))
                ctx.check([('removing raises nothing', exc is None),
                           ('removed iff it was there',
                            bool(w.returned) == (name in known))],
                          lambda: (name, exc, w.returned))
                if name in known:
                    del known[name]
                    order.remove(name)
                    ctx.cover('removed')
            lst = w.tree.list_filters()
            ctx.check([('the list has every filter once', sorted(lst) == sorted(known))],
                      lambda: (lst, sorted(known)))
        if not use:
            return
        target = ctx.choice('use', ['p', 'q'])
        where = ctx.choice('where', ['view', 'count', 'with'])
        if where == 'view':
            view = w.tree.get_viewtree(refresh=False)
            view.apply_filter(target)
            o = observe_view(w, view)
            shown = [o.shown[i] for i in range(m)]
            num = len(o.all)
        elif where == 'count':
            vc = w.tree.get_viewcount(refresh=False)
            if target not in known:
                return
            vc.apply_filter(target)
            shown = None
            num = vc.get_n_nodes()
        else:
            if target not in known:
                return
            view = w.tree.get_viewtree()
            lst = [w.index(i) for i in view.get_nodes(withfilters=[target])]
            shown = [i in lst for i in range(m)]
            num = view.get_n_nodes(withfilters=[target])
        f = known.get(target)
        if f is None:
            acc = [False] * m
        else:
            acc = list(w.D[f.colour])
            if f.params and f.params.get('negate'):
                acc = [Not(a) for a in acc]
                ctx.cover('negated')
        from harness.logic import Count
        conds = [('number of nodes passing the filter', Count(acc) == num),
                 ('the function got the node and its parameters',
                  not any(g.bad for g in funcs))]
        if shown is not None:
            conds += [('node %d passes' % i, Iff(shown[i], acc[i])) for i in range(m)]
        ctx.check(conds, lambda: (target, where, shown, num, [g.bad for g in funcs]))
        ctx.cover(where)
    return run


def gone(m):
    """A filter leaves the bank while a view uses it; it may come back."""
    def run(ctx):
        args = draw_args(ctx, 1)
        w = VWorld(ctx, m)
        w.build(m)
        w.filter('own')
        view = w.tree.get_viewtree(refresh=False)
        view.apply_filter('own')
        w.tree.remove_filter('own')
        back = ctx.choice('back', ['no', 'same', 'other'])
        if back != 'no':
            ctx.check([('it can be added again', w.tree.add_filter(
                'own', w.flt_own if back == 'same' else w.flt_other) is True)])
        how = ctx.choice('how', ['refresh_all', 'unapply', 'reset', 'apply'])
        kinds = ['own' if back == 'same' else 'other']
        if how == 'refresh_all':
            if back == 'no' and ctx.decide('nothing'):
                return
            w.step('refresh_all')
        elif how == 'unapply':
            view.unapply_filter('own')
            kinds = []
        elif how == 'reset':
            view.reset_filters()
            kinds = []
        else:
            view.apply_filter(w.filter('leaf'))
            kinds.append('leaf')
        o = observe_view(w, view)
        if back == 'no' and how in ('refresh_all', 'apply'):
            ctx.check([('an unknown filter shows nothing', not o.all and not o.root)],
                      lambda: o.sig)
        else:
            ctx.check(w.view_conds(o, kinds, 'after ' + how), lambda: o.sig)
        ctx.cover(back + ' ' + how)
    return run


def reparam(m, napply):
    """A filter works with the parameters it was given last."""
    def run(ctx):
        w = VWorld(ctx, m)
        w.build(m)
        cur = ctx.choice('par', REPAR)
        f = Func(w, 'f', cur)
        f.answers = ctx.choice('answers', [None, (2, 0), ('no', ''), ([0], None)])
        w.tree.add_filter('p', f, None if cur is None else dict(cur))
        view = w.tree.get_viewtree(refresh=False)
        for s in range(napply):
            par = ctx.choice('par%d' % s, REPAR)
            if par is not None:
                cur = par
            f.params = cur
            exc = w.do_raw(('apply', par), lambda: view.apply_filter('p')
                           if par is None else
                           view.apply_filter('p', parameters=dict(par)))
            o = observe_view(w, view)
            neg = bool(cur and cur.get('negate'))
            flat = bool(cur and cur.get('flat'))
            acc = [Not(a) if neg else a for a in w.D['f']]
            conds = [('applying succeeds', exc is None),
                     ('the function got the node and the current parameters',
                      not f.bad)]
            E = w.model.E
            for i in range(m):
                conds.append(('node %d passes' % i, Iff(o.shown[i], acc[i])))
                for j in range(m):
                    if i != j:
                        conds.append(('%d below %d' % (i, j), Iff(
                            j in o.parents[i],
                            False if flat else And(E[j][i], acc[i], acc[j]))))
            ctx.check(conds, lambda: (cur, f.bad, o.sig))
            if flat:
                ctx.cover('flat')
            if neg:
                ctx.cover('negated')
    return run


REPAR = [None, {'negate': True}, {'k': 1}, {'flat': True},
         {'negate': False, 'flat': False}]

SCENARIOS = [
    S('reparam', reparam(2, 2), 2,
      '2 nodes, a filter with any parameters is applied twice with any parameters',
      covers=['flat', 'negated']),
    S('bank3', bank(2, 3, NAMES, PARAMS[:2]), 2,
      '2 nodes, 3 additions or removals of filters, then a view, a counter or a '
      'count with the filter',
      covers=['not replaced', 'removed', 'negated', 'view', 'count', 'with']),
    S('bank2', bank(2, 2, NAMES, PARAMS), 2,
      '2 nodes, 2 additions or removals with any parameters'),
    S('bank4', bank(1, 4, ['p', '!p'], [None, {'negate': True}], use=False), 1,
      '4 additions or removals'),
    S('bank3n', bank(1, 3, ['p', '!p', '!!p', 'P', 'p '], [None], use=False), 1,
      '3 additions or removals of filters with similar names'),
    S('gone3', gone(3), 3,
      '3 nodes, a filter in use leaves the bank and comes back',
      covers=['no refresh_all', 'same refresh_all', 'other apply', 'no unapply']),
    S('bank4x', bank(2, 4, NAMES, PARAMS[:2]), 2,
      '2 nodes, 4 additions or removals', tiers=T),
]
