"""C17: changes are announced."""
from harness.core import draw_args
from harness.logic import And, Or, Not, Iff, Implies, Count
from harness.views import VWorld, observe_view, paths_of
from harness.world import OPS, LARGE, LARGE7, assume_forest, large
from props.c06 import S, T, ASSUMPTIONS as A6

ASSUMPTIONS = [
    'node identifiers are non-empty strings other than the reserved root names',
    'filters are deterministic functions of the data of the node itself',
    'late relationships do not contradict each other',
    'requests are made from the thread that created the tree',
]


class Rows(object):
    """modified events of a filtered view, by row"""

    def __init__(self, w, view):
        self.w = w
        self.got = []
        self.other = []
        view.register_cllbck('node-modified-inview', self.modified)
        view.register_cllbck('node-added-inview', lambda n, p: self.other.append(('+', n)))
        view.register_cllbck('node-deleted-inview', lambda n, p: self.other.append(('-', n)))

    def modified(self, nid, path):
        p = tuple(self.w.index(i) for i in path)
        if not p or p[-1] != self.w.index(nid):
            self.other.append(('bad', p))
        self.got.append(p)

    def clear(self):
        self.got = []
        self.other = []


class Complete(object):
    """events of the complete view, by node; was the node there at the time?"""

    def __init__(self, w):
        self.w = w
        self.got = []
        v = w.tree.get_main_view()
        for ev in ('node-added', 'node-deleted', 'node-modified'):
            v.register_cllbck(ev, self.listener(ev))

    def listener(self, ev):
        def f(nid, path):
            there = bool(self.w.tree.has_node(nid))
            if there and ev == 'node-added':
                # in its place
                v = self.w.tree.get_main_view()
                there = ((nid in v.node_all_children()) ==
                         (not self.w.tree.get_node(nid).get_parents()))
            self.got.append((ev, self.w.index(nid), there))
        return f

    def count(self, ev, i):
        return sum(1 for e, j, _ in self.got if e == ev and j == i)


def refresh(m, kindsets, forest=False, how=('tree', 'node', 'all', 'view', 'state')):
    def run(ctx):
        args = draw_args(ctx, 1)
        if forest:
            assume_forest(ctx, m)
        w = VWorld(ctx, m + 1)
        w.build(m)
        views = []
        for kinds in ctx.choice('filters', kindsets):
            v = w.tree.get_viewtree(name='view%d' % len(views) if kinds else
                                    None, refresh=not kinds)
            for kd in kinds:
                v.apply_filter(w.filter(kd))
            views.append((v, kinds, Rows(w, v)))
        main = Complete(w)
        x = args[0][0]
        way = ctx.choice('how', list(how))
        if way == 'tree':
            w.tree.refresh_node(x)
        elif way == 'node':
            node = w.objs.get(x)
            if node is None:
                return
            node.modified()
        elif way == 'all':
            w.tree.refresh_all()
        elif way == 'view':
            w.tree.get_viewtree().refresh_all()
        elif way == 'state':
            w.tree.get_main_view().get_current_state()
        one = way in ('tree', 'node')
        X = w.X(x)
        conds = []
        for i in range(w.n):
            asked = And(w.model.pres[i], X[i]) if one else w.model.pres[i]
            conds.append(('complete view: node %d modified once iff refreshed' % i,
                          Iff(main.count('node-modified', i) == 1, asked)
                          if main.count('node-modified', i) < 2 else False))
        conds.append(('complete view: nothing added or deleted',
                      all(e == 'node-modified' and there for e, j, there in main.got)))
        for k, (v, kinds, rows) in enumerate(views):
            o = observe_view(w, v)
            shown, VE, top = w.view_spec(kinds)
            every = paths_of(o)
            conds.append(('view %d: nothing appears or goes' % k, not rows.other))
            conds.append(('view %d: only rows it has' % k,
                          all(p in every for p in rows.got)))
            for p in every:
                n = rows.got.count(p)
                i = p[-1]
                if one:
                    conds.append(('view %d: row %s of the node, once' % (k, p),
                                  Implies(X[i], n == 1)))
                    # rows above the node
                    above = Or(*[And(X[j], reach(VE, i, j, w.n)) for j in range(w.n)])
                    conds.append(('view %d: rows %s above' % (k, p),
                                  Implies(above, n >= 1)))
                    anc = Or(*[And(X[j], w.model.R[i][j]) for j in range(w.n)])
                    conds.append(('view %d: no row %s of others' % (k, p),
                                  Implies(Not(Or(X[i], anc)), n == 0)))
                else:
                    conds.append(('view %d: row %s' % (k, p), n >= 1))
            if len(every) > len(set(p[-1] for p in every)):
                ctx.cover('several rows')
        ctx.check(conds, lambda: '%s\n%s\n%s' % (
            way, main.got, [(kinds, r.got, r.other) for _, kinds, r in views]))
        ctx.cover(way)
    return run


def reach(VE, i, j, n):
    """i is above j in the view"""
    seen = [i == k for k in range(n)]
    cur = [VE[i][k] for k in range(n)]
    tot = list(cur)
    for _ in range(n - 1):
        cur = [Or(*[And(cur[a], VE[a][k]) for a in range(n)]) for k in range(n)]
        tot = [Or(t, c) for t, c in zip(tot, cur)]
    return tot[j]


OPSET = ['add_node', 'add_node_parent', 'ctor_parent', 'ctor_child', 'add_parent',
         'add_child', 'remove_parent', 'move', 'move_root', 'delete', 'delete_rec',
         'readd', 'no_children', 'no_parents']


def edits(m, ops, spare=1, forest=False):
    """the complete view announces additions, deletions and changed neighbours"""
    k = len(ops)

    def run(ctx):
        args = draw_args(ctx, k)
        if forest:
            assume_forest(ctx, m)
        w = VWorld(ctx, m + spare)
        w.build(m)
        main = Complete(w)
        n = w.n
        for s in range(k):
            m0 = w.model
            main.got = []
            op = ctx.choice('op%d' % s, ops[s])
            exc, refused = w.step(op, *args[s][:OPS[op]])
            m1 = w.model
            u = m1.undef

            def mk():
                conds = [('only refusals raise', Or(u, Iff(exc is not None, refused)))]
                for i in range(n):
                    a = main.count('node-added', i)
                    d = main.count('node-deleted', i)
                    c = main.count('node-modified', i)
                    new = And(Not(m0.pres[i]), m1.pres[i])
                    gone = And(m0.pres[i], Not(m1.pres[i]))
                    conds.append(('added %d once iff it arrives' % i,
                                  Or(u, Iff(a == 1, new)) if a < 2 else False))
                    conds.append(('deleted %d once iff it goes' % i,
                                  Or(u, Iff(d == 1, gone)) if d < 2 else False))
                    stays = And(m0.pres[i], m1.pres[i])
                    change = Or(*[And(Not(Iff(m0.E[i][j], m1.E[i][j])), m0.pres[j])
                                  for j in range(n)] +
                                [Not(Iff(m0.E[j][i], m1.E[j][i])) for j in range(n)])
                    conds.append(('modified %d if its neighbours changed' % i,
                                  Or(u, Implies(And(stays, change), c > 0))))
                conds.append(('when told of an addition the node is there',
                              all(th for e, j, th in main.got if e == 'node-added')))
                conds.append(('when told of a deletion the node is gone',
                              not any(th for e, j, th in main.got if e == 'node-deleted')))
                return conds
            ctx.check_memo(('ev', w.key, tuple(main.got), exc is None), mk,
                           lambda: '%r %s' % (exc, main.got))
            if main.got:
                ctx.cover(op)
    return run


SCENARIOS = [
    S('refresh4', refresh(4, [[('own',), ()]], how=('tree',)), 5,
      '4 nodes, any acyclic relation, 1 unknown, two views, one refresh',
      covers=['several rows']),
    S('refresh3', refresh(3, [[('own',), ('other',)], [('own+flat',), ()]]), 4,
      '3 nodes, two views, refresh by tree, node, all nodes',
      covers=['tree', 'node', 'all', 'view', 'state']),
    S('forest5', refresh(5, [[('own',)]], forest=True, how=('tree', 'all')), 6,
      '5 nodes with at most one parent each, 1 unknown, refresh'),
    S('edit3', edits(3, [OPSET]), 4,
      '3 nodes, 1 more that may be added, 1 operation',
      covers=['add_node', 'delete', 'delete_rec', 'move', 'add_parent', 'readd']),
    S('edit3-2', edits(2, [OPSET[:-2], OPSET]), 3,
      '2 nodes, 1 more that may be added, 2 operations'),
    S('edit4', edits(4, [OPSET[4:]], spare=0), 4, '4 nodes, 1 operation'),
    S('edit5', edits(5, [OPSET[6:11]], spare=0, forest=True), 5,
      '5 nodes with at most one parent each, 1 operation'),
    S('large', large(edits(12, [OPSET], spare=0), LARGE), 12,
      '12 nodes in one of 7 large shapes (chain, star, funnel, ladder, tree, waist, '
      'no relation), 1 operation', sym_sets=False),
    S('large-refresh', large(refresh(7, [[('own',), ()]]), LARGE7, few=1), 8,
      '7 nodes in one of 6 large shapes (chain, star, funnel, tree, waist, ladder), '
      'at most 1 not matching, a refresh', sym_sets=False),
    S('refresh5', refresh(5, [[('own',), ()]], how=('tree', 'all')), 6,
      '5 nodes, two views, one refresh', tiers=T),
    S('refresh4x', refresh(4, [[('own',), ('other',)], [('own+flat',), ()]]), 5,
      '4 nodes, two views, refresh by tree, node, all nodes', tiers=T),
    S('edit4-2', edits(3, [OPSET[:-2], OPSET]), 4,
      '3 nodes, 1 more that may be added, 2 operations', tiers=T),
    S('edit5x', edits(5, [OPSET[4:]], spare=0), 5, '5 nodes, 1 operation', tiers=T),
]
