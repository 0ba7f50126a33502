"""C20: rows are open unless collapsed; opening and closing is announced."""
import ast

from harness import mainloop
from harness.core import draw_args
from harness.logic import Or, Iff
from harness.views import observe_view, paths_of, tb
from harness.widget import WWorld
from harness.world import LARGE7, large, OPS
from props.c06 import S, T

NEEDS_DISPLAY = True
ASSUMPTIONS = [
    'node identifiers are non-empty strings other than the reserved root names',
    'filters are deterministic; data changes are announced by refreshing the node',
    'Gtk.TreeStore and Gtk.TreeView behave as documented (harness/gtkstub.py)',
]
STUBS = ['Gtk.TreeStore, Gtk.TreeView (replays: the real ones on a virtual display)']
E3 = ['toggle', 'add_parent', 'remove_parent', 'move', 'delete']
FOLD = ('collapse_node', 'expand_node')
CLICK = ('collapse row', 'expand row', 'expand row fully', 'expand all')


def folding(m, ops, kindsets=((),), spare=0, after=False):
    """ops: requests of the tree mixed with FOLD (nodes) and CLICK (rows)

    after: the widget is there before the nodes"""
    k = len(ops)

    def run(ctx):
        args = draw_args(ctx, k)
        mainloop.reset()
        w = WWorld(ctx, m + spare)
        if not after:
            w.build(m)
        kinds = ctx.choice('filters', list(kindsets))
        view = w.tree.get_viewtree(refresh=not kinds)
        for kd in kinds:
            view.apply_filter(w.filter(kd))
        tv = w.widget(view, {'name': {'value': [str, lambda node: node.get_id()]}},
                      live=True)
        said = []

        def heard(sender, path, what):
            if isinstance(path, str):
                path = ast.literal_eval(path)
            said.append((what, tuple(w.index(x) for x in path)))
        tv.connect('node-expanded', heard, 'opened')
        tv.connect('node-collapsed', heard, 'closed')
        if after:
            w.build(m)
        model = tv.get_model()
        closed = set()       # collapsed, not expanded since
        again = set()        # expanded by a request since
        ever = set()         # collapsed at some time, or below a row that was

        def look():
            return [(p, g, bool(tv.row_expanded(g)),
                     model.iter_has_child(model.get_iter(g)))
                    for p, g in w.gtk_paths(model)]

        def check(label, before):
            now = look()
            conds = []
            was = set(p for p, g, o, kids in before if o)
            for p, g, o, kids in now:
                if kids and not ever.intersection(p[:-1]) and \
                        (p[-1] not in ever or p[-1] in again):
                    conds.append(('%s: row %s is open' % (label, p), o))
                    ctx.cover('open')
                if p[-1] in closed:
                    conds.append(('%s: row %s stays closed' % (label, p), not o))
                    ctx.cover('closed')
                if o and p not in was and before is not None:
                    conds.append(('%s: opening %s is announced' % (label, p),
                                  ('opened', p) in said))
            ctx.check(conds, lambda: 'rows %s\nannounced %s' % (
                [(p, o) for p, g, o, kids in now], said))

        check('initially', [(p, g, True, kids) for p, g, o, kids in look()])
        for s in range(k):
            name = ctx.choice('op%d' % s, ops[s])
            before = look()
            del said[:]
            if name in FOLD:
                x = args[s][0]
                i = w.index(x)
                f = getattr(tv, name)
                exc = w.do_raw((name, str(x)), lambda: f((x,)))
                o = observe_view(w, view)
                if name == 'collapse_node':
                    again.discard(i)
                    closed.add(i)
                    ever.add(i)
                    # what was below a closed row is not opened with it again
                    for p in [p for p, g, oo, kids in before]:
                        if i in p[:-1]:
                            ever.update(p[p.index(i) + 1:])
                else:
                    closed.discard(i)
                    again.add(i)
            elif name in CLICK:
                if name == 'expand all':
                    target = None
                    exc = w.do_raw((name,), tv.expand_all)
                    closed.clear()
                else:
                    if not before:
                        continue
                    target, g, o, kids = ctx.choice('row%d' % s, before)
                    i = target[-1]
                    if name == 'collapse row':
                        exc = w.do_raw((name, target), lambda: tv.collapse_row(g))
                        again.discard(i)
                        ever.add(i)
                        ever.update(p[-1] for p, g, oo, kk in before
                                    if p[:len(target)] == target)
                    else:
                        exc = w.do_raw((name, target), lambda: tv.expand_row(
                            g, name == 'expand row fully'))
                        if name == 'expand row':
                            closed.discard(i)
                        else:
                            for p, gg, oo, kk in before:
                                if p[:len(target)] == target:
                                    closed.discard(p[-1])
            else:
                exc, refused = w.step(name, *args[s][:OPS[name]])
                ctx.check_memo((w.key, 'exc', exc is None), lambda: [
                    ('%s raises nothing but refusals' % name,
                     Or(w.model.undef, Iff(exc is not None, refused)))],
                    lambda: repr(exc) + tb(exc))
            ctx.check([('the main loop comes to rest', mainloop.run())])
            if name in FOLD or name in CLICK:
                ctx.check([('%s raises no error' % name, exc is None)],
                          lambda: repr(exc) + tb(exc))
                now = dict((p, o) for p, g, o, kids in look())
                old = dict((p, o) for p, g, o, kids in before)
                new = sorted(('opened', p) for p in now if now[p] and not old[p])
                gone = [p for p in now if old[p] and not now[p]]
                # rows below a closed row are closed silently
                top = sorted(('closed', p) for p in gone
                             if not any(p[:j] in gone for j in range(1, len(p))))
                ctx.check([('each row opened is announced once', sorted(
                    e for e in said if e[0] == 'opened') == new),
                    ('each row closed is announced once', sorted(
                        e for e in said if e[0] == 'closed') == top)]
                    if name in CLICK else
                    [('each row opened is announced', set(new) <= set(said)),
                     ('each row closed is announced', set(top) <= set(said)),
                     ('nothing else is announced', all(
                         e[1][-1] == i for e in said))],
                    lambda: 'before %s\nafter %s\nannounced %s' % (old, now, said))
                if said:
                    ctx.cover('announced')
            check('after ' + name, before)
            ctx.cover('%s done' % name)
    return run


SCENARIOS = [
    S('open', folding(3, [E3], kindsets=((), ('own',))), 3,
      '3 nodes, any acyclic relation, 1 operation', covers=['open', 'move done'],
      stubs=STUBS),
    S('open-after', folding(3, [E3], after=True), 3,
      '3 nodes added to the shown widget, any acyclic relation, 1 operation',
      covers=['open'], stubs=STUBS),
    S('collapse', folding(3, [['collapse_node'], E3]), 3,
      '3 nodes, any acyclic relation, any node collapsed, 1 operation',
      covers=['open', 'closed'], stubs=STUBS),
    S('expand', folding(2, [['collapse_node', 'expand_node', 'add_node'],
                            ['expand_node', 'collapse_node'],
                            ['delete', 'remove_parent', 'add_parent'],
                            ['add_parent', 'add_node_parent']],
                        spare=1), 3,
      '2 nodes, collapsed and expanded, shown or not, 2 operations',
      covers=['open', 'closed', 'announced'], stubs=STUBS),
    S('hidden', folding(3, [FOLD, ['toggle'], ['add_parent', 'move']],
                        kindsets=(('own',),)), 3,
      '3 nodes with symbolic data, filtered view, collapsed while shown or not, '
      '2 operations', covers=['open', 'closed'], stubs=STUBS),
    S('click', folding(3, [CLICK, CLICK]), 3,
      '3 nodes, any acyclic relation, any two rows clicked', covers=['announced'],
      stubs=STUBS),
    S('click-op', folding(3, [CLICK[:2], E3]), 3,
      '3 nodes, any acyclic relation, any row clicked, 1 operation', stubs=STUBS),
    S('large', large(folding(7, [['collapse_node'], E3]), LARGE7), 7,
      '7 nodes in one of 6 large shapes, any node collapsed, 1 operation', sym_sets=False, stubs=STUBS),
    S('large-click', large(folding(7, [CLICK, CLICK]), LARGE7), 7,
      '7 nodes in one of 6 large shapes, any two rows clicked', sym_sets=False, stubs=STUBS),
    S('collapse4', folding(4, [['collapse_node'], ['move', 'add_parent', 'delete']]), 4,
      '4 nodes, any node collapsed, 1 operation', tiers=T, stubs=STUBS),
    S('collapse-2', folding(3, [FOLD, E3, E3]), 3,
      '3 nodes, any node collapsed or expanded, 2 operations', tiers=T, stubs=STUBS),
    S('click3', folding(3, [CLICK, CLICK, E3, CLICK]), 3,
      '3 nodes, rows clicked, an operation, clicked again', tiers=T, stubs=STUBS),
]
