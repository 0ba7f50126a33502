"""C15: listeners."""
from harness.core import draw_args
from harness.logic import And, Or, Not, Iff
from harness.views import VWorld
from harness.world import OPS
from props.c06 import S, T

ASSUMPTIONS = [
    'node identifiers are non-empty strings other than the reserved root names',
    'requests are made from the thread that created the tree',
    'whether a listener registered or removed while an event is being delivered '
    'still gets that very event is unspecified',
]

EVENTS = {True: ['node-added', 'node-modified', 'node-deleted'],
          False: ['node-added-inview', 'node-modified-inview', 'node-deleted-inview']}


class Reg(object):
    def __init__(self, w, event, hook=None, result=False):
        self.w = w
        self.event = event
        self.calls = []
        self.live = True
        self.key = None
        # what a listener returns must not matter
        self.result = result
        self.hook = hook

    def __call__(self, nid, path):
        self.calls.append((self.w.index(nid), None if path is None else
                           tuple(self.w.index(p) for p in path)))
        if self.hook:
            self.hook(self)
        return self.result


def listeners(m, nreg, ops, main, spare=1, inside=False, nev=3):
    """a symbolic sequence of registrations and removals, then events"""
    k = len(ops)

    def run(ctx):
        args = draw_args(ctx, k)
        w = VWorld(ctx, m + spare)
        w.build(m)
        is_main = ctx.choice('main', list(main))
        if is_main:
            view = w.tree.get_main_view()
        else:
            view = w.tree.get_viewtree(refresh=False)
            view.apply_filter(w.filter('own'))
        events = EVENTS[is_main][:nev]
        ref = {}
        for ev in EVENTS[is_main]:
            ref[ev] = Reg(w, ev)
            ref[ev].key = view.register_cllbck(ev, ref[ev])
        regs = []

        def live(ev):
            return [r for r in regs + list(ref.values()) if r.live and r.event == ev]

        def drop(r):
            r.live = False
            view.deregister_cllbck(r.event, r.key)
        for s in range(nreg):
            what = ctx.choice('do%d' % s, ['new', 'again'] + ['drop%d' % j for j in range(s)]
                              + ['stranger'])
            ctx.trace.append(what)
            if what == 'stranger':
                ev = ctx.choice('ev%d' % s, events + ['no such event'])
                # an unknown key, or a key of other events with an unknown one
                key = 99 if ev in events else ref[EVENTS[is_main][0]].key
                exc = w.do_raw(what, lambda: view.deregister_cllbck(ev, key))
                ctx.check([('removing an unknown listener is harmless', exc is None)])
            elif what.startswith('drop'):
                j = int(what[4:])
                if j >= len(regs):
                    return
                if not regs[j].live:
                    return
                drop(regs[j])
            else:
                ev = ctx.choice('ev%d' % s, events)
                hook = None
                if inside:
                    act = ctx.choice('in%d' % s, ['none', 'leave', 'join'])
                    if act == 'leave':
                        def hook(r):
                            if r.live:
                                drop(r)
                    elif act == 'join':
                        def hook(r):
                            r.hook = None
                            q = Reg(w, r.event)
                            q.young = True
                            q.key = view.register_cllbck(q.event, q)
                            regs.append(q)
                r = Reg(w, ev, hook, (True, False, None)[s % 3])
                if what == 'again' and regs:
                    # the same function twice: both registrations count
                    r.calls = regs[-1].calls
                    r.key = view.register_cllbck(ev, regs[-1])
                    r.shared = regs[-1]
                else:
                    r.key = view.register_cllbck(ev, r)
                ctx.check([('the key is not in use',
                            all(o.key != r.key for o in live(ev)))],
                          lambda: (r.key, [o.key for o in live(ev)]))
                regs.append(r)
        for s in range(k):
            alive = dict((id(r), r.live) for r in regs)
            for r in regs + list(ref.values()):
                del r.calls[:]
            op = ctx.choice('op%d' % s, ops[s])
            exc, refused = w.step(op, *args[s][:OPS[op]])
            ctx.check([('no error', Or(w.model.undef, Iff(exc is not None, refused)))],
                      lambda: repr(exc))
            conds = []
            for ev in EVENTS[is_main]:
                want = ref[ev].calls
                group = {}
                for r in regs:
                    if id(r) not in alive:
                        continue            # came while events were delivered
                    if r.event == ev or True:
                        group.setdefault(id(r.calls), []).append(r)
            for rs in group.values():
                rs = [r for r in rs]
                if inside and any(r.hook or not r.live for r in rs):
                    # left while events were delivered: exactly the first event
                    if not any(alive[id(r)] for r in rs):
                        conds.append(('gone', not rs[0].calls))
                    elif len(rs) == 1 and not rs[0].live:
                        conds.append(('one event before leaving',
                                      rs[0].calls == ref[rs[0].event].calls[:1]))
                    continue
                exp = []
                for r in rs:
                    if alive[id(r)]:
                        exp += ref[r.event].calls
                conds.append(('each registered listener gets every event once, '
                              'removed ones none',
                              sorted(map(str, rs[0].calls)) == sorted(map(str, exp))))
                if len(rs) == 1:
                    conds.append(('in the order of the events', rs[0].calls == exp))
                if exp:
                    ctx.cover('called')
            ctx.check(conds, lambda: '%s %s' % (
                [(e, r.calls) for e, r in ref.items()],
                [(r.event, r.live, r.key, r.calls) for r in regs]))
            if ref[EVENTS[is_main][1]].calls:
                ctx.cover('modified')
            if ref[EVENTS[is_main][0]].calls:
                ctx.cover('added')
    return run


BOTH = (True, False)
SCENARIOS = [
    S('reg3', listeners(2, 3, [['toggle', 'add_node', 'delete']], BOTH), 3,
      '2 nodes, 3 registrations or removals, 1 operation',
      covers=['called', 'modified', 'added']),
    S('reg4', listeners(1, 4, [['refresh', 'add_node']], BOTH, nev=2), 2,
      '1 node, 4 registrations or removals, 1 operation', covers=['called']),
    S('inside', listeners(2, 2, [['toggle', 'move'], ['toggle', 'add_node']], BOTH,
                          inside=True, nev=2), 3,
      '2 nodes, 2 listeners that leave or bring others, 2 operations',
      covers=['called']),
    S('reg4x', listeners(2, 4, [['toggle', 'add_node', 'delete']], BOTH), 3,
      '2 nodes, 4 registrations or removals, 1 operation', tiers=T),
    S('reg5', listeners(1, 5, [['refresh', 'add_node']], BOTH, nev=2), 2,
      '1 node, 5 registrations or removals, 1 operation', tiers=T),
]
