"""C18: drag and drop in the widget."""
from harness.logic import And, Or, Not, Iff
from harness.views import observe_view
from harness.widget import WWorld, DragData, DragContext
from harness.world import LARGE7, large, quiet
from props.c06 import S, T

NEEDS_DISPLAY = True
ASSUMPTIONS = [
    'node identifiers are non-empty strings other than the reserved root names',
    'of the rows dragged together none is below another one',
    'Gtk reports the rows under the pointer and the selected rows (the harness stands '
    'in for both) and Gtk.TreeStore behaves as documented (harness/gtkstub.py)',
]
STUBS = ['Gtk.TreeStore, Gtk.TreeView (replays: the real ones on a virtual display)']
POS = ['BEFORE', 'AFTER', 'INTO_OR_BEFORE', 'INTO_OR_AFTER']


def pos(name):
    from gi.repository import Gtk
    return getattr(Gtk.TreeViewDropPosition, name)


def drag(m, nsel=1, kindsets=((),), again=False, external=()):
    def run(ctx):
        w = WWorld(ctx, m)
        w.build(m)
        kinds = ctx.choice('filters', list(kindsets))
        view = w.tree.get_viewtree(refresh=not kinds)
        for kd in kinds:
            view.apply_filter(w.filter(kd))
        tv = w.widget(view, {'name': {'value': [str, lambda node: node.get_id()]}})
        tv.set_dnd_name('rows')
        outside = []
        if external:
            # what they answer does not matter
            tv.set_dnd_external('gtg/task-iter-a',
                                lambda src, dst: bool(outside.append((src, dst))))
            tv.set_dnd_external('gtg/task-iter-b',
                                lambda src, dst: not outside.append((dst, src)))
        model = tv.get_model()
        source = tv
        place = ctx.choice('source', list(external)) if external else 'same'
        if place != 'same':
            # another widget with other rows
            there = w.tree.get_viewtree(refresh=False)
            there.apply_filter(w.filter('other+flat' if place == 'flat' else 'other'))
            source = w.widget(there, {'id': {'value': [str, lambda node: node.get_id()]}})
            source.set_dnd_name('gtg/task-iter-a')

        def once(tag):
            rows = w.gtk_paths(model)
            if not rows:
                return False
            picked = []
            there = rows if source is tv else w.gtk_paths(source.get_model())
            if not there:
                return False
            for k in range(nsel):
                picked.append(ctx.choice('row%s%d' % (tag, k), there))
            ps = [p for p, _ in picked]
            for a in ps:
                for b in ps:
                    if a != b and a[:len(b)] == b:
                        return False
            if len(set(ps)) < len(ps):
                return False
            source.sel.paths = [g for _, g in picked]
            ctx.check([('the selected nodes are those of the selected rows',
                        [w.index(i) for i in source.get_selected_nodes()]
                        == [p[-1] for p in ps])], lambda: source.get_selected_nodes())
            data = DragData()
            context = DragContext(source)
            source.on_drag_data_get(source, context, data, 0, 0)
            target = ctx.choice('target' + tag, rows + [None])
            where = None
            if target is not None:
                where = ctx.choice('pos' + tag, POS)
                tv.drop = (target[1], pos(where))
            else:
                tv.drop = None
            if target is None:
                dest = None
            elif where in ('BEFORE', 'AFTER'):
                dest = target[0][-2] if len(target[0]) > 1 else None
            else:
                dest = target[0][-1]
            ctx.trace.append(('drag', ps, 'to', target and target[0], where))
            info = ctx.choice('info' + tag, [0, 1, 2] if source is tv else [1, 2]) \
                if external else 0
            before = w.observe()
            exc = w.do_raw('drop', lambda: tv.on_drag_data_received(
                tv, context, 1, 1, data, info, 0))
            if info == 0:
                for p in ps:
                    x = ctx.ids[p[-1]]
                    key = w.key + (('drag', p[-1], dest),)
                    m0 = w.model
                    X = [i == p[-1] for i in range(m)]
                    if dest is None:
                        w.set_model(key, lambda: m0.apply('move_root', X, None)[0])
                    else:
                        Y = [i == dest for i in range(m)]
                        w.set_model(key, lambda: m0.apply('move', X, Y)[0])
                want = []
            elif dest is None:
                want = []
            else:
                want = [(p[-1], dest) if info == 1 else (dest, p[-1]) for p in ps]
            o = w.observe()
            vo = observe_view(w, view)
            now = w.gtk_paths(model)

            def conds():
                return [('a drop raises no error', exc is None),
                        ('external drops are handed over', [
                            (w.index(a), w.index(b)) for a, b in outside] == want)] + \
                    w.tree_conds(o, label='after the drop') + w.struct_conds(o) + \
                    w.view_conds(vo, kinds, 'view after the drop')
            ctx.check_memo(('c18', w.key, info, kinds, o.sig, vo.sig, exc is None,
                            str(outside), tuple(want)),
                           conds, lambda: 'tree %s exc %r outside %s' % (
                               o.sig, exc, outside))
            del outside[:]
            if info == 0 and exc is None:
                # dragged together, they stay in their order
                was = before.root if dest is None else before.children[dest]
                new = o.root if dest is None else o.children[dest]
                moved = []
                for p in ps:
                    if p[-1] in new and p[-1] not in was and p[-1] not in moved:
                        moved.append(p[-1])
                ctx.check([('rows dragged together keep their order',
                            [c for c in new if c in moved] == moved)], lambda: (ps, o.sig))
            from harness.views import paths_of
            ctx.check([('the rows of the widget are those of the view',
                        sorted(p for p, _ in now) == sorted(paths_of(vo)))],
                      lambda: (now, vo.sig))
            ctx.cover('dropped')
            if exc is None and dest is not None and w.model is not None:
                ctx.cover('dropped on a row')
            return True
        if once('a') and again:
            once('b')
    return run


def nothing(m):
    """an empty selection or rubbish moves nothing"""
    def run(ctx):
        w = WWorld(ctx, m)
        w.build(m)
        tv = w.widget(w.tree.get_viewtree(), {'name': {
            'value': [str, lambda node: node.get_id()]}})
        tv.set_dnd_name('rows')
        outside = []
        tv.set_dnd_external('gtg/task-iter-a', lambda src, dst: outside.append((src, dst)))
        before = w.observe()
        data = DragData()
        kind = ctx.choice('kind', ['empty', 'gone'])
        info = ctx.choice('info', [0, 1]) if kind == 'empty' else 0
        rows = w.gtk_paths(tv.get_model())
        row = ctx.choice('target', rows + [None])
        if row is not None:
            tv.drop = (row[1], pos('INTO_OR_AFTER'))
        ctx.check([('nothing is selected', tv.get_selected_nodes() == [])])
        if kind == 'empty':
            tv.on_drag_data_get(tv, DragContext(tv), data, 0, 0)
        else:
            data.data = b'7:3'
        exc = w.do_raw(kind, lambda: tv.on_drag_data_received(
            tv, DragContext(tv), 0, 0, data, info, 0))
        after = w.observe()
        ctx.check([('no error', exc is None),
                   ('nothing is handed over', outside == []),
                   ('nothing moves', before.sig == after.sig)], lambda: repr(exc))
        ctx.cover('done')
    return run


SCENARIOS = [
    S('n3-1', drag(3), 3, '3 nodes, any acyclic relation, any row dragged to any row, '
      'any drop position', covers=['dropped', 'dropped on a row'], stubs=STUBS),
    S('n4-1', drag(4), 4, '4 nodes, any acyclic relation, any row dragged to any row',
      stubs=STUBS),
    S('n3-two', drag(3, 2), 3, '3 nodes, any two rows dragged together', stubs=STUBS),
    S('n3-filter', drag(3, 1, kindsets=(('own',),)), 3,
      '3 nodes with symbolic data, filtered view', stubs=STUBS),
    S('n3-again', drag(2, 1, again=True), 2, '2 nodes, two drags', stubs=STUBS),
    S('n3-ext', drag(2, 2, external=('same', 'flat')), 2,
      '2 nodes, internal and external targets, dragged from this widget or another one', stubs=STUBS),
    S('n3-ext1', drag(3, 1, external=('nested',)), 3,
      '3 nodes, external targets, any row of another widget with other rows dragged '
      'to any row', stubs=STUBS),
    S('large', large(drag(7), LARGE7), 7, '7 nodes in one of 6 large shapes, any row dragged to any row',
      sym_sets=False, stubs=STUBS),
    S('nothing', nothing(2), 2, 'empty and stale drags', covers=['done'], stubs=STUBS),
    S('n4-two', drag(4, 2), 4, '4 nodes, any two rows dragged together', tiers=T,
      stubs=STUBS),
    S('n3-again3', drag(3, 1, again=True), 3, '3 nodes, two drags', tiers=T, stubs=STUBS),
]
