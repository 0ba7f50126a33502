"""C10: counters."""
from harness.core import draw_args
from harness.logic import And, Or, Not, Iff, Count
from harness.views import VWorld
from harness.world import LARGE7, large, OPS
from props.c06 import S, T, ASSUMPTIONS as A6

ASSUMPTIONS = [
    'node identifiers are non-empty strings other than the reserved root names',
    'filters are deterministic functions of the data of the node itself; data '
    'changes are announced by refreshing the node',
    'requests are made from the thread that created the tree',
    'a counter made without refresh counts only from the moment it is first '
    'refreshed by applying a filter',
]


class Listener(object):
    """Calls of one registered function, and the number it saw."""

    def __init__(self, vc):
        self.vc = vc
        self.seen = []

    def __call__(self):
        self.seen.append(self.vc.get_n_nodes())


EDIT = ['add_node', 'add_node_parent', 'toggle', 'delete', 'delete_rec', 'move',
        'add_parent', 'readd', 'refresh', 'refresh_all', 'toggle2']


def changed(before, after):
    return Not(And(*[Iff(a, b) for a, b in zip(before, after)]))


def counts(m, steps, spare=1, kinds=('own', 'other', 'own+neg', 'truthy'),
           start=((), ('own',)), edits=EDIT,
           whens=('after', 'before', 'lazy')):
    k = steps

    def run(ctx):
        args = draw_args(ctx, k)
        w = VWorld(ctx, m + spare)
        # a filter that answers with something that is no bool
        w.tree.add_filter('truthy', lambda node: [1] if w.flt_own(node) else None)
        w.filters['truthy'] = True
        n = w.n

        def acc(kd):
            return w.accepted('own' if kd == 'truthy' else kd)

        def member(applied):
            accs = [acc(kd) for kd in applied]
            return [And(w.model.pres[i], *[a[i] for a in accs]) for i in range(n)]
        when = ctx.choice('when', list(whens))
        before = when == 'before'
        if not before:
            w.build(m)
        lazy = when == 'lazy'
        applied = []
        vc = w.tree.get_viewcount(refresh=not lazy)
        live = not lazy
        if before:
            w.build(m)
            # changes reach a counter whether it was refreshed or not
        on = Listener(vc)
        off = Listener(vc)
        vc.register_cllbck(on)
        vc.register_cllbck(off)
        vc.register_cllbck(on)
        vc.register_cllbck(off)     # registered already: no second entry
        vc.unregister_cllbck(off)
        for kd in ctx.choice('start', list(start)):
            vc.apply_filter(w.filter(kd))
            applied.append(kd)
            live = True
        if not live and not before:
            ctx.check([('a counter made without refresh is empty',
                        vc.get_n_nodes() == 0)])
            kd = ctx.choice('first', list(kinds))
            vc.apply_filter(w.filter(kd))
            applied.append(kd)
        old = member(applied)
        num = vc.get_n_nodes()
        ctx.check([('counted initially', Count(old) == num)], lambda: (applied, num))
        mu0 = w.model.undef
        for s in range(k):
            del on.seen[:]
            del off.seen[:]
            prev = num
            op = ctx.choice('op%d' % s, list(edits) + ['apply', 'unapply'])
            if op in ('apply', 'unapply'):
                kd = ctx.choice('flt%d' % s, list(kinds))
                ctx.trace.append((op, kd))
                if op == 'apply':
                    vc.apply_filter(w.filter(kd))
                    if kd not in applied:
                        applied.append(kd)
                else:
                    vc.unapply_filter(w.filter(kd))
                    if kd in applied:
                        applied.remove(kd)
                exc = None
            elif op == 'toggle2':
                ctx.trace.append((op, str(args[s][0])))
                x = args[s][0]
                i = w.index(x)
                w.flips['g'][i] = not w.flips['g'][i]
                X = w.X(x)
                D = list(w.D['g'])
                from harness.logic import Ite
                w.D = dict(w.D, g=[Ite(X[j], Not(D[j]), D[j]) for j in range(n)])
                w.tree.refresh_node(x)
                exc = None
            else:
                exc, refused = w.step(op, *args[s][:OPS[op]])
                ctx.check([('only refusals raise', Or(
                    w.model.undef, Iff(exc is not None, refused)))], lambda: repr(exc))
            new = member(applied)
            num = vc.get_n_nodes()
            ctx.check([
                ('the number of matching nodes', Or(w.model.undef, Count(new) == num)),
                ('told iff the number or the members change',
                 Or(w.model.undef, Iff(bool(on.seen), changed(old, new)))),
                ('the last call sees the final number',
                 not on.seen or on.seen[-1] == num),
                ('removed listeners are not called', not off.seen)],
                lambda: 'filters %s count %s calls %s exc %r' % (
                    applied, num, on.seen, exc))
            if num != prev:
                ctx.cover('count changed by ' + op)
            old = new
    return run


def several(m):
    """Two counters with different filters do not disturb each other; the
    external update entry point; a filter removed from the bank."""
    def run(ctx):
        args = draw_args(ctx, 2)
        w = VWorld(ctx, m)
        w.build(m)
        a = w.tree.get_viewcount()
        b = w.tree.get_viewcount(refresh=False)
        a.apply_filter(w.filter('own'))
        b.apply_filter(w.filter('other'), refresh=ctx.decide('r'))
        b.apply_filter(w.filter('own'))
        la, lb = Listener(a), Listener(b)
        a.register_cllbck(la)
        b.register_cllbck(lb)
        how = ctx.choice('how', ['toggle', 'delete', 'silent', 'unknown', 'gone'])
        x = args[0][0]
        if how == 'silent':
            # the application tells one counter itself
            i = w.index(x)
            w.flips['f'][i] = not w.flips['f'][i]
            a.modify(x)
            old = list(w.D['f'])
            X = w.X(x)
            from harness.logic import Ite
            w.D = dict(w.D, f=[Ite(X[j], Not(old[j]), old[j]) for j in range(m)])
        elif how == 'gone':
            # a filter that has left the bank accepts nothing
            w.tree.remove_filter('own')
            w.step('refresh_all')
            ctx.check([('counters with a filter that is gone count nothing',
                        a.get_n_nodes() == 0 and b.get_n_nodes() == 0)])
            # without it they count as if it had never been there
            a.unapply_filter('own')
            b.unapply_filter('own')
            ctx.check([
                ('all once the filter that is gone is removed',
                 Count(w.model.pres) == a.get_n_nodes()),
                ('others once the filter that is gone is removed',
                 Count([And(w.model.pres[i], w.D['g'][i]) for i in range(m)])
                 == b.get_n_nodes()),
                ('last calls', all(not l.seen or l.seen[-1] == c.get_n_nodes()
                                   for l, c in ((la, a), (lb, b))))],
                lambda: (a.get_n_nodes(), b.get_n_nodes()))
            ctx.cover('gone')
            return
        elif how == 'unknown':
            exc = w.do_raw(how, lambda: a.apply_filter('no such filter'))
            ctx.check([('an unknown filter is ignored', exc is None)], lambda: repr(exc))
            w.step('refresh', x)
        else:
            w.step(how, x)
        f, g, pres = w.D['f'], w.D['g'], w.model.pres
        out = [('first', Count([And(pres[i], f[i]) for i in range(m)])
                == a.get_n_nodes())]
        if how != 'silent':
            out.append(('second', Count([And(pres[i], f[i], g[i]) for i in range(m)])
                        == b.get_n_nodes()))
        ctx.check(out, lambda: (how, a.get_n_nodes(), b.get_n_nodes()))
        a.unapply_filter('own')
        ctx.check([('all', Count(pres) == a.get_n_nodes()),
                   ('last call', not la.seen or la.seen[-1] == a.get_n_nodes())])
    return run


def lazily(m, k, spare=1):
    """A counter made without refresh sees changes (and perhaps a filter
    applied without refresh) before a filter is first applied with refresh."""
    def run(ctx):
        args = draw_args(ctx, k + 1)
        w = VWorld(ctx, m + spare)
        n = w.n
        w.build(m)
        vc = w.tree.get_viewcount(refresh=False)
        applied = []
        if ctx.decide('silent'):
            vc.apply_filter(w.filter('own'), refresh=False)
            applied.append('own')
        ops = ['add_node', 'toggle', 'delete', 'refresh', 'none', 'add_node_parent']
        for s in range(k):
            op = ctx.choice('op%d' % s, ops)
            if op != 'none':
                w.step(op, *args[s][:OPS[op]])
        kd = ctx.choice('first', ['own', 'other'])
        vc.apply_filter(w.filter(kd), refresh=True)
        if kd in applied:
            # applied already: nothing was asked for
            kd = 'other'
            vc.apply_filter(w.filter(kd))
        applied.append(kd)

        def check(label):
            num = vc.get_n_nodes()
            accs = [w.accepted(x) for x in applied]
            ctx.check([(label, Or(w.model.undef, Count([
                And(w.model.pres[i], *[a[i] for a in accs])
                for i in range(n)]) == num))], lambda: (applied, num))
        check('counted after the first refresh')
        op = ctx.choice('op%d' % k, ops[:4])
        w.step(op, *args[k][:OPS[op]])
        check('counted after ' + op)
        ctx.cover('done')
    return run


def quietly(m):
    """Filters applied without refresh: the next refresh makes up for them."""
    def run(ctx):
        args = draw_args(ctx, 1)
        w = VWorld(ctx, m)
        w.build(m)
        vc = w.tree.get_viewcount()
        applied = []
        for kd in ctx.choice('start', [(), ('own',)]):
            vc.apply_filter(w.filter(kd))
            applied.append(kd)
        for kd in ctx.choice('quiet', [('other',), ('other', 'own+neg'), ('leaf',)]):
            vc.apply_filter(w.filter(kd), refresh=False)
            applied.append(kd)
        op = ctx.choice('op', ['none', 'toggle', 'delete'])
        if op != 'none':
            w.step(op, *args[0][:OPS[op]])
        lst = Listener(vc)
        vc.register_cllbck(lst)
        before = vc.get_n_nodes()
        how = ctx.choice('how', ['apply', 'unapply', 'refresh_all'])
        if how == 'apply':
            vc.apply_filter(w.filter('top'))
            applied.append('top')
        elif how == 'unapply':
            kd = ctx.choice('which', applied[:])
            vc.unapply_filter(w.filter(kd))
            applied.remove(kd)
        else:
            w.tree.refresh_all()
        accs = [w.accepted(x) for x in applied]
        num = vc.get_n_nodes()
        ctx.check([('counted after the refresh', Count([
            And(w.model.pres[i], *[a[i] for a in accs]) for i in range(m)]) == num),
            ('told of another number', num == before or
             bool(lst.seen) and lst.seen[-1] == num)],
            lambda: (applied, num, before, lst.seen))
        ctx.cover(how)
    return run


def nested(m, calls=3):
    """Listeners that register or unregister listeners while they are told."""
    def run(ctx):
        args = draw_args(ctx, 1)
        w = VWorld(ctx, m)
        w.build(m)
        vc = w.tree.get_viewcount()
        vc.apply_filter(w.filter('own'))
        told = []
        fns = []

        def mk(j):
            def f():
                told.append(j)
                if plan[0] == j and told.count(j) == 1:
                    if plan[1] == 'remove':
                        vc.unregister_cllbck(fns[plan[2]])
                    elif plan[1] == 'new':
                        vc.register_cllbck(late)
            return f

        def late():
            told.append('late')
        for j in range(calls):
            fns.append(mk(j))
        for f in fns:
            vc.register_cllbck(f)
        what = ctx.choice('what', ['remove', 'new', 'nothing'])
        plan = (ctx.choice('who', list(range(calls))), what,
                ctx.choice('whom', list(range(calls))) if what == 'remove' else None)
        ctx.trace.append(plan)
        old = w.accepted('own')
        for rnd in (0, 1):
            del told[:]
            exc, _ = w.step('toggle', args[0][0])
            new = w.accepted('own')
            diff = Not(And(*[Iff(a, b) for a, b in zip(old, new)]))
            old = new
            gone = what == 'remove'
            stay = [j for j in range(calls) if not (gone and j == plan[2])]
            out = [('a listener that changes the listeners causes no error', exc is None),
                   ('every listener that stays is told once',
                    Iff(diff, all(told.count(j) == 1 for j in stay))
                    if stay else True)]
            if rnd and gone:
                # unregistered in the first round
                out.append(('an unregistered listener is not told',
                            told.count(plan[2]) == 0))
            if rnd and what == 'new':
                out.append(('the new listener is told', Iff(diff, 'late' in told)))
            ctx.check(out, lambda: (plan, rnd, told, repr(exc)))
            if not told:
                return
        ctx.cover('twice')
    return run


SCENARIOS = [
    S('nested', nested(2), 2, '2 nodes, 3 listeners of which one adds or removes '
      'one while it is told, 2 changes', covers=['twice']),
    S('quiet', quietly(2), 2, '2 nodes, filters applied without refresh, an operation, '
      'a refresh', covers=['apply', 'unapply', 'refresh_all']),
    S('lazy', lazily(2, 1), 3, '2 nodes, 1 more that may be added, a counter made '
      'without refresh, 1 operation before its first filter, 1 after', covers=['done']),
    S('n2-2', counts(2, 2, kinds=('own', 'other'), whens=('after', 'before')), 3,
      '2 nodes, 1 more that may be added, symbolic data, 2 operations or filter changes',
      covers=['count changed by add_node', 'count changed by toggle',
              'count changed by delete', 'count changed by unapply',
              'count changed by apply', 'count changed by toggle2']),
    S('n3-1', counts(3, 1, whens=('after', 'lazy')), 4,
      '3 nodes, any acyclic relation, 1 more that may be added, 1 operation'),
    S('n3-several', several(3), 3, '3 nodes, two counters, external update'),
    S('n1-3', counts(1, 3, kinds=('own', 'own+neg'), edits=[
        'add_node', 'toggle', 'delete', 'readd', 'add_node_parent']), 2,
      '1 node, 1 more that may be added, 3 operations or filter changes'),
    S('large', large(counts(7, 1, spare=0, kinds=('own', 'other'), whens=('after',)),
                     LARGE7, few=1, colours='fg'), 7,
      '7 nodes in one of 6 large shapes, at most 1 node not matching each filter, 1 operation', sym_sets=False),
    S('n3-2', counts(3, 2, kinds=('own', 'other'), whens=('after',)), 4, '3 nodes, 2 operations or filter changes', tiers=T),
    S('n2-2-more', counts(2, 2), 3, '2 nodes, 2 operations or filter changes',
      tiers=T),
    S('n4-1', counts(4, 1), 5, '4 nodes, 1 operation', tiers=T),
    S('n2-3', counts(2, 3, kinds=('own', 'other')), 3,
      '2 nodes, 3 operations or filter changes', tiers=T),
]
