"""C13: queued actions run exactly once, as soon as their node is shown."""
from harness import load, mainloop
from harness.core import draw_args
from harness.logic import And, Or, Not, Iff
from harness.views import VWorld
from harness.world import LARGE7, large, OPS, quiet
from props.c06 import S, T

ASSUMPTIONS = [
    'node identifiers are non-empty strings other than the reserved root names',
    'filters are deterministic functions of the data of the node itself (plus '
    'one structural filter); data changes are announced by refreshing the node',
    'the GLib main loop dispatches idle sources (stand-in in symbolic runs, the '
    'real one in replays); queued actions do not raise and do not edit the tree',
    'requests are made from the thread that created the tree',
]


class Action(object):
    def __init__(self, w, view, target, result, log):
        self.log = log
        self.w = w
        self.view = view
        self.target = target
        self.result = result
        self.runs = []
        # without a result (False) the action is queued without parameter
        self.token = object() if result else None

    def __call__(self, param):
        self.log.append(self)
        self.runs.append((param is self.token,
                          bool(self.view.is_displayed(self.target)), loop_depth()))
        return self.result


_depth = [0]


def loop_depth():
    return _depth[0]


def run_loop():
    _depth[0] = 1
    try:
        return mainloop.run()
    finally:
        _depth[0] = 0


def actions(m, ops, nact, kindsets=(('own',),), spare=1, late=False):
    """nact actions for symbolic nodes are queued at a symbolic moment."""
    k = len(ops)

    def run(ctx):
        mainloop.reset()
        args = draw_args(ctx, k)
        targets = [ctx.arg('t%d' % j) for j in range(nact)]
        for t in targets:
            ctx.assume_arg(t)
        w = VWorld(ctx, m + spare)
        w.build(m)
        n = w.n
        kinds = ctx.choice('filters', list(kindsets))
        view = w.tree.get_viewtree(name='shown' if kinds else None,
                                   refresh=not kinds)
        for kd in kinds:
            view.apply_filter(w.filter(kd))
        result = ctx.decide('result')
        log = []
        acts = [Action(w, view, t, result, log) for t in targets]
        when = [0 if not late else ctx.choice('when%d' % j, list(range(k)))
                for j in range(nact)]
        due = [False] * nact
        Tx = [[ctx.is_id(t, i) for i in range(n)] for t in targets]

        def shown_now(j):
            shown, _, _ = w.view_spec(kinds)
            return Or(*[And(Tx[j][i], shown[i]) for i in range(n)])

        def queue(s):
            for j in range(nact):
                if when[j] == s:
                    before = len(acts[j].runs)
                    if acts[j].token is None:
                        view.queue_action(targets[j], acts[j])
                    else:
                        view.queue_action(targets[j], acts[j], param=acts[j].token)
                    ctx.check([('queueing runs nothing',
                                len(acts[j].runs) == before)])
                    due[j] = shown_now(j)

        def verify(label):
            # actions for nodes that were shown when queued wait for the loop
            ok = run_loop()
            conds = [('the main loop comes to rest %s' % label, ok)]
            for j in range(nact):
                cnt = len(acts[j].runs)
                conds.append(('action %d ran once iff its node was shown %s' % (j, label),
                              Or(w.model.undef, Iff(cnt == 1, due[j]))
                              if cnt < 2 else False))
                conds.append(('action %d got its parameter' % j,
                              all(r[0] for r in acts[j].runs)))
            for j in range(nact):
                for h in range(j):
                    if when[h] == when[j] and acts[h].runs and acts[j].runs:
                        same = Or(*[And(Tx[j][i], Tx[h][i]) for i in range(n)])
                        conds.append(('actions queued together for one node run in order',
                                      Or(Not(same), log.index(acts[h]) < log.index(acts[j]))))
            ctx.check(conds, lambda: (kinds, [a.runs for a in acts]))
        queue(0)
        for j in range(nact):
            if acts[j].runs:
                ctx.fail('an action ran before the main loop did')
        if ctx.decide('loop'):
            verify('at once')
        for s in range(k):
            op = ctx.choice('op%d' % s, ops[s])
            exc, refused = w.step(op, *args[s][:OPS[op]])
            ctx.check([('only refusals raise', Or(w.model.undef,
                                                  Iff(exc is not None, refused)))],
                      lambda: repr(exc))
            for j in range(nact):
                if when[j] <= s:
                    due[j] = Or(due[j], shown_now(j))
            if s + 1 < k:
                queue(s + 1)
            if s == k - 1 or ctx.decide('loop%d' % s):
                verify('after ' + op)
        if any(a.runs for a in acts):
            ctx.cover('ran')
        if any(not a.runs for a in acts):
            ctx.cover('waits')
        if nact > 1 and all(a.runs for a in acts):
            ctx.cover('all ran')
    return run


def filtered(m, k, spare=1):
    """nodes get shown because the filters of the view change"""
    def run(ctx):
        mainloop.reset()
        args = draw_args(ctx, k, names=('x',))
        target = ctx.arg('t')
        ctx.assume_arg(target)
        w = VWorld(ctx, m + spare)
        w.build(m)
        n = w.n
        kinds = list(ctx.choice('filters', [('own',), ('own', 'other')]))
        view = w.tree.get_viewtree(refresh=False)
        for kd in kinds:
            view.apply_filter(w.filter(kd))
        other = w.tree.get_viewtree()
        log = []
        act = Action(w, view, target, True, log)
        view.queue_action(target, act, param=act.token)
        T = [ctx.is_id(target, i) for i in range(n)]

        def shown():
            now = w.view_spec(tuple(kinds))[0]
            return Or(*[And(T[i], now[i]) for i in range(n)])
        due = shown()
        for s in range(k):
            op = ctx.choice('op%d' % s, ['unapply', 'apply', 'swap', 'reset',
                                         'toggle', 'add_node', 'delete', 'elsewhere'])
            if op == 'unapply' and kinds:
                view.unapply_filter(w.filter(kinds.pop(0)))
            elif op == 'apply' and 'other' not in kinds:
                view.apply_filter(w.filter('other'))
                kinds.append('other')
            elif op == 'swap':
                kinds[:] = ['own+neg' if 'own' in kinds else 'own']
                view.apply_filter(w.filter(kinds[0]), reset=True)
            elif op == 'reset':
                view.reset_filters()
                del kinds[:]
            elif op == 'elsewhere':
                other.apply_filter(w.filter('other'))
            elif op in OPS:
                w.step(op, *args[s][:OPS[op]])
            ctx.trace.append((op, list(kinds)))
            due = Or(due, shown())
            if s == k - 1 or ctx.decide('loop%d' % s):
                ok = run_loop()
                cnt = len(act.runs)
                ctx.check([
                    ('the main loop comes to rest', ok),
                    ('the action ran once iff its node was shown after ' + op,
                     Or(w.model.undef, Iff(cnt == 1, due)) if cnt < 2 else False),
                    ('the action got its parameter', all(r[0] for r in act.runs)),
                    ('its node was shown', all(r[1] or r[2] for r in act.runs))],
                    lambda: (kinds, act.runs))
        if act.runs:
            ctx.cover('ran')
        else:
            ctx.cover('waits')
    return run


NAMES = ['added', 'deleted', 'modified', 'reordered', 'runonce', 'root_x', 'main']


def named(ctx):
    """identifiers that look like the names of events"""
    mainloop.reset()
    L = load.fresh()
    tree = L.Tree()
    name = ctx.choice('name', NAMES)
    other = ctx.choice('other', NAMES)
    if other == name:
        return
    show = {}
    tree.add_filter('f', lambda node: show.get(node.get_id(), False))
    view = tree.get_viewtree(refresh=False)
    view.apply_filter('f')
    events = []
    for ev in ('node-added-inview', 'node-deleted-inview', 'node-modified-inview'):
        view.register_cllbck(ev, lambda n, p, ev=ev: events.append((ev, n, p)))
    runs = []
    order = ctx.choice('order', ['queue-add', 'add-queue', 'add-show-queue'])
    if order == 'queue-add':
        view.queue_action(name, lambda p: runs.append(p), param='p')
        tree.add_node(L.TreeNode(name))
    else:
        tree.add_node(L.TreeNode(name))
        if order == 'add-show-queue':
            show[name] = True
            tree.refresh_node(name)
        view.queue_action(name, lambda p: runs.append(p), param='p')
    run_loop()
    show[other] = True
    tree.add_node(L.TreeNode(other), name)
    run_loop()
    first = list(runs)
    show[name] = True
    tree.refresh_node(name)
    run_loop()
    tree.refresh_node(name)
    run_loop()
    rows = set()
    for ev, n, p in events:
        if ev == 'node-added-inview':
            rows.add(p)
        elif ev == 'node-deleted-inview':
            rows.discard(p)
    ctx.check([('not too early', first == (['p'] if order == 'add-show-queue' else [])),
               ('once', runs == ['p']),
               ('events go on', rows == set([(name,), (name, other)])),
               ('modified is told', ('node-modified-inview', name, (name,)) in events)],
              lambda: (name, other, order, runs, events))
    ctx.cover('named')


def repeated(ctx):
    """the same action queued several times for nodes shown or not"""
    mainloop.reset()
    X = [ctx.arg('x%d' % j) for j in range(2)]
    for x in X:
        ctx.assume_arg(x)
    w = VWorld(ctx, 2)
    w.build(2)
    n = w.n
    ids = ctx.ids
    view = w.tree.get_viewtree(refresh=False)
    view.apply_filter(w.filter('own'))
    runs = []

    def act(param):
        runs.append(param)
    param = ctx.choice('param', ['p', None, 0, (), ('a', 'b')])
    mode = ctx.choice('mode', ['before', 'between'])
    view.queue_action(X[0], act, param=param)
    if mode == 'between':
        run_loop()
    view.queue_action(X[1], act, param=param)
    run_loop()
    for i in range(n):
        w.step('toggle', ids[i])
        run_loop()
        w.step('toggle', ids[i])
        run_loop()
    # every node was shown at some time: each of the two ran once
    ctx.check([('each of two equal actions ran once', runs == [param, param])],
              lambda: (mode, runs))
    ctx.cover('repeated')


EDIT = ['toggle', 'add_node', 'delete', 'move']
SCENARIOS = [
    S('n2-1act-2', actions(2, [EDIT, EDIT], 1), 3,
      '2 nodes, 1 more that may be added, 1 action, 2 operations',
      covers=['ran', 'waits']),
    S('n2-2act', actions(2, [EDIT + ['add_node_parent', 'ctor_child', 'delete_rec']], 2), 3,
      '2 nodes, 1 more that may be added, 2 actions for any nodes, 1 operation',
      covers=['ran', 'waits', 'all ran']),
    S('n1-late', actions(1, [['toggle', 'add_node', 'delete', 'readd']] * 3, 1,
                         late=True), 2,
      '1 node, 1 more that may be added, an action queued at any time, 3 operations'),
    S('filters', filtered(2, 2), 3,
      '2 nodes, 1 more that may be added, an action for any node, 2 changes of the '
      'filters of this or another view or of the nodes', covers=['ran', 'waits']),
    S('filters-3', filtered(2, 3), 3, '2 nodes, 1 more that may be added, 3 changes of '
      'filters or nodes', tiers=T, covers=['ran', 'waits']),
    S('n3-struct', actions(3, [['toggle', 'add_parent', 'delete']], 1,
                           kindsets=(('leaf',), ('own+flat',), ('own', 'top')),
                           spare=0), 3,
      '3 nodes, any acyclic relation, structural and flat filters'),
    S('large', large(actions(7, [['toggle', 'delete', 'move_root']], 1, spare=0), LARGE7,
                     few=1), 7,
      '7 nodes in one of 6 large shapes, at most 1 node hidden, 1 action, 1 operation', sym_sets=False),
    S('repeated', repeated, 2, '2 nodes, the same action queued twice for any nodes',
      covers=['repeated']),
    S('named', named, 0, 'nodes named like events of the library', covers=['named']),
    S('n3-2act-1', actions(3, [EDIT], 2), 4, '3 nodes, 2 actions, 1 operation', tiers=T),
    S('n2-3act', actions(2, [EDIT], 3), 3, '2 nodes, 3 actions, 1 operation', tiers=T),
    S('n2-2act-2', actions(2, [EDIT, EDIT], 2, late=True), 3,
      '2 nodes, 2 actions, 2 operations', tiers=T),
]
