"""C11: requests from other threads."""
import sys

from harness import mainloop
from harness.core import draw_args
from harness.logic import And, Or, Not, Iff
from harness.sched import Sched
from harness.scenario import Scenario
from harness.views import VWorld, observe_view
from harness.world import OPS, _Null
import threading

ASSUMPTIONS = [
    'the thread that created the tree runs the main loop; requests of other threads '
    'are add_node, del_node and refresh_node (edits through node objects and all '
    'queries belong to that thread)',
    'threads are preempted between lines of the library and at lock operations, at '
    'most as often as stated per scenario',
    'GLib.idle_add and source_remove are atomic and behave as documented '
    '(harness/gistub.py); replays use the real GLib',
]
STUBS = ['threading.Lock/RLock (scheduler), GLib idle sources (replays: real GLib)']
PRIO = ['low', 'normal', 'high']


class TWorld(VWorld):
    def __init__(self, ctx, n, preemptions):
        self.sched = Sched(ctx, preemptions)
        VWorld.__init__(self, ctx, n)

    def threading(self):
        return self.sched.module


class silent(object):
    def __enter__(self):
        self.old = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = _Null()

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.old


def requests(m, workers, iters, preemptions, prios=None, distinct=False, own=0,
             fails=False, dup=False):
    """Nodes 0..m-1; workers: number of refresh requests of each worker, with
    symbolic nodes (distinct ones: the nodes in order) and priorities."""
    total = sum(workers)

    def run(ctx):
        args = draw_args(ctx, total + own, names=('x',))
        mainloop.reset()
        w = TWorld(ctx, m, preemptions)
        s = w.sched
        me = threading.current_thread()
        for i in range(m):
            w.tree.add_node(w.new_node(ctx.ids[i]))
        rec = []         # executions
        iteration = [0, None]     # number, clock at its start
        pushes = []
        owns = []
        starts = []

        def listener(nid, path):
            i = w.index(nid)
            rec.append((i, threading.current_thread() is me, s.tick(), iteration[1]))
            if fails and ctx.decide('bad%d' % i):
                raise RuntimeError('a listener fails')
        w.tree.get_main_view().register_cllbck('node-modified', listener)

        def push(k, who):
            nid = ctx.ids[k % m] if distinct else args[k][0]
            pr = ctx.choice('prio%d' % k, prios) if prios else 'low'
            p = {'id': nid, 'prio': pr, 'start': s.tick(), 'iter': iteration[1] is not None}
            n0 = len(rec)
            pushes.append(p)
            w.tree.refresh_node(nid, pr)
            p['end'] = s.tick()
            ctx.trace.append('%s asks for node %s, priority %s' % (who, nid, pr))

        def worker(base, n, name):
            def body():
                for k in range(n):
                    push(base + k, name)
            return body

        def iterate():
            s.free()
            iteration[1] = s.tick()
            starts.append(iteration[1])
            ctx.trace.append('main loop')
            try:
                return mainloop.iterate()
            finally:
                iteration[1] = None
                starts.append(-s.tick())

        def main():
            for k in range(own):
                n0 = len(rec)
                nid = args[total + k][0]
                c0 = s.tick()
                try:
                    w.tree.refresh_node(nid)
                except RuntimeError:
                    pass
                mine = [e for e in rec if e[2] > c0]
                owns.append((w.index(nid), mine))
                if mine:
                    rec.remove(mine[0])
            for k in range(iters):
                iterate()
        ws = []
        base = 0
        for k, n in enumerate(workers):
            ws.append(('w%d' % k, worker(base, n, 'w%d' % k)))
            base += n
        with silent():
            s.run(main, ws)
            rest = 0
            for k in range(60):
                if not iterate():
                    break
                rest += 1
        out = [('the main loop comes to rest', rest < 60),
               ('requests run on the thread of the main loop only',
                all(e[1] for e in rec)),
               ('requests run from the main loop only',
                all(e[3] is not None for e in rec))]
        for i, mine in owns:
            out.append(('own requests of the main thread run at once',
                        len(mine) == 1 and mine[0][0] == i and mine[0][1]))
        ps = [dict(p, i=w.index(p['id'])) for p in pushes]
        for a, p in enumerate(ps):
            p['same'] = [q for q in ps if q['i'] == p['i'] and q is not p]
            p['twins'] = [q for q in p['same'] if q['prio'] == p['prio']]
            p['runs'] = [e for e in rec if e[0] == p['i'] and e[2] > p['start']]
            out.append(('every request is executed', bool(p['runs'])))
        for i in range(m):
            mine = [p for p in ps if p['i'] == i]
            n = len([e for e in rec if e[0] == i])
            prs = set(p['prio'] for p in mine)
            out.append(('no request is executed too often', n <= len(mine)))
            out.append(('requests of different priorities are not merged', n >= len(prs)))
            # an identical request that waits already is not repeated
            if len(mine) == 2 and len(prs) == 1:
                lo = min(p['start'] for p in mine)
                hi = max(p['end'] for p in mine)
                ends = [(b, -e) for b, e in zip(starts[::2], starts[1::2])]
                if all(e < lo or b > hi for b, e in ends):
                    out.append(('identical waiting requests are executed once', n == 1))
                    ctx.cover('identical requests')
        rank = {'high': 0, 'normal': 1, 'low': 2}
        for p in ps:
            for q in ps:
                if p['same'] or q['same'] or p is q or not p['runs'] or not q['runs']:
                    continue
                ep, eq = p['runs'][0], q['runs'][0]
                if p['end'] > (eq[3] or 0):
                    continue      # p came during or after the iteration that ran q
                rp, rq = rank[p['prio']], rank[q['prio']]
                if rp < rq:
                    out.append(('higher priorities first', ep[2] < eq[2]))
                    ctx.cover('priorities')
                elif rp == rq and p['end'] < q['start']:
                    out.append(('first come, first served', ep[2] < eq[2]))
                    ctx.cover('order')
        ctx.check(out, lambda: 'requests %s\nexecuted %s\nmain loop %s' % (
            [(p['i'], p['prio'], p['start'], p['end']) for p in ps], rec, starts))
        # it still works afterwards
        k0 = len(rec)
        s2 = []
        t = threading.Thread(target=lambda: w.tree.refresh_node(ctx.ids[0]))
        t.start()
        t.join()
        early = len(rec)
        with silent():
            for k in range(20):
                if not iterate():
                    break
        ctx.check([('a later request of another thread waits', early == k0),
                   ('a later request is executed', len(rec) == k0 + 1)],
                  lambda: rec[k0:])
        ctx.cover('done')
    return run


def tree_ops(m, ops, iters, preemptions, kinds=()):
    """One worker edits the tree while the main loop runs."""
    k = len(ops)

    def run(ctx):
        args = draw_args(ctx, k)
        mainloop.reset()
        w = TWorld(ctx, m + 1, preemptions)
        s = w.sched
        me = threading.current_thread()
        w.build(m)
        view = w.tree.get_viewtree(refresh=not kinds)
        for kd in kinds:
            view.apply_filter(w.filter(kd))
        bad = []

        def event(what):
            def f(nid, path):
                if threading.current_thread() is not me:
                    bad.append((what, nid))
            return f
        mv = w.tree.get_main_view()
        for e in ('node-added', 'node-deleted', 'node-modified'):
            mv.register_cllbck(e, event(e))
        models = [(w.model, w.key)]
        names = [ctx.choice('op%d' % j, ops[j]) for j in range(k)]
        nodes = {}

        def work():
            for j in range(k):
                x, y = args[j]
                name = names[j]
                ctx.trace.append(('worker', name, str(x), str(y)))
                t = w.tree
                if name == 'add_node':
                    t.add_node(w.new_node(x), priority='normal')
                elif name == 'add_node_parent':
                    t.add_node(w.new_node(x), y, priority='normal')
                elif name == 'delete':
                    t.del_node(x)
                elif name == 'delete_rec':
                    t.del_node(x, recursive=True)
        seen = []

        def main():
            seen.append(w.observe())
            for j in range(iters):
                s.free()
                mainloop.iterate()
                seen.append(w.observe())
        with silent():
            s.run(main, [('w', work)])
            ok = mainloop.run(60)
        model = w.model
        steps = [model]
        for j, name in enumerate(names):
            X = w.X(args[j][0])
            Y = w.X(args[j][1])
            nxt, refused = model.apply(name, X, Y if OPS[name] > 1 else None)
            model = nxt
            steps.append(model)
        o = w.observe()
        w.model = model
        w.key = w.key + tuple((nm,) + tuple(getattr(a, 'name', a) for a in args[j])
                              for j, nm in enumerate(names))
        out = [('the main loop comes to rest', ok),
               ('all events come on the thread of the main loop', not bad)]
        out += w.tree_conds(o, label='in the end')
        out += w.struct_conds(o)
        if kinds:
            out += w.view_conds(observe_view(w, view), kinds, 'view in the end')
        ctx.check(out, lambda: 'tree %s' % (o.sig,))
        for z in seen:
            alts = []
            for md in steps:
                alts.append(And(*[c for l, c in w.tree_conds(z, md)]))
            ctx.check([('the main thread sees whole requests only', Or(*alts))],
                      lambda: 'tree %s' % (z.sig,))
        ctx.cover('done')
        if s.switches > 2:
            ctx.cover('interleaved')
    return run


def S(name, fn, n, bounds, **kw):
    kw.setdefault('covers', ['done'])
    return Scenario(name, fn, n, bounds, stubs=STUBS, **kw)


T = ('thorough',)
W = ['add_node', 'add_node_parent', 'delete', 'delete_rec']
SCENARIOS = [
    S('seq-prio', requests(3, (3,), 0, 0, prios=PRIO), 3,
      '1 worker, 3 requests for symbolic nodes with symbolic priorities, no preemption',
      covers=['done', 'priorities', 'order', 'identical requests']),
    S('many', requests(7, (7,), 0, 0, prios=['low', 'high'], distinct=True), 7,
      '1 worker, 7 requests for 7 nodes with symbolic priorities (low, high) waiting '
      'together, no preemption', covers=['done', 'priorities', 'order']),
    S('prio-loop', requests(2, (2,), 2, 1, prios=PRIO), 2,
      '1 worker, 2 requests with symbolic nodes and priorities, 2 iterations of the '
      'main loop, 1 preemption'),
    S('two-1', requests(2, (1, 1), 2, 2, distinct=True), 2,
      '2 workers with 1 request each, 2 iterations of the main loop, 2 preemptions'),
    S('two-2', requests(2, (1, 1), 1, 2), 2,
      '2 workers with 1 request each for symbolic nodes, 1 iteration, 2 preemptions'),
    S('two-3', requests(2, (1, 1), 1, 3), 2,
      '2 workers with 1 request each for symbolic nodes, 1 iteration, 3 preemptions',
      tiers=T),
    S('two-4', requests(3, (2, 1), 2, 2, distinct=True), 3,
      '2 workers, 3 requests, 2 iterations, 2 preemptions', tiers=T),
    S('seq-prio4', requests(3, (4,), 0, 0, prios=PRIO), 3,
      '1 worker, 4 requests for symbolic nodes with symbolic priorities', tiers=T),
    S('tree-2', tree_ops(3, [W, W], 2, 1, kinds=('own',)), 4,
      '3 nodes, filtered view, 1 worker with 2 edits, 1 preemption', tiers=T),
    S('three', requests(3, (1, 1, 1), 1, 1, distinct=True, prios=['low', 'high']), 3,
      '3 workers with 1 request each, symbolic priorities, 1 iteration, 1 preemption'),
    S('own', requests(2, (1,), 1, 2, own=2), 2,
      '1 worker and 2 own requests of the main thread, 1 iteration, 2 preemptions'),
    S('fails', requests(3, (2, 1), 1, 1, distinct=True, fails=True), 3,
      '2 workers, 3 requests any of which fail, 1 iteration, 1 preemption'),
    S('tree-1', tree_ops(1, [W, W], 1, 1), 2,
      '1 node, 1 more that may be added, 1 worker with 2 symbolic edits, 1 iteration, '
      '1 preemption',
      covers=['done', 'interleaved']),
    S('tree-seq', tree_ops(2, [W, W], 2, 0), 3,
      '2 nodes, 1 more that may be added, 1 worker with 2 symbolic edits, 2 iterations, '
      'no preemption'),
    S('tree-three', tree_ops(1, [W, W, W], 0, 0), 2,
      '1 node, 1 more that may be added, 1 worker with 3 symbolic edits waiting together'),
    S('tree-view', tree_ops(2, [W], 1, 1, kinds=('own',)), 3,
      '2 nodes, filtered view, 1 worker with 1 edit, 1 iteration, 1 preemption'),
]
