"""C19: columns, sorting, collapsed rows of the widget."""
from harness import load, mainloop
from harness.core import draw_args
from harness.logic import And, Or, Not, Iff
from harness.views import observe_view, paths_of, tb
from harness.widget import WWorld
from harness.world import LARGE7, large, OPS
from props.c06 import S, T

NEEDS_DISPLAY = True
ASSUMPTIONS = [
    'node identifiers are non-empty strings other than the reserved root names',
    'column functions return values of the type of the column; comparison '
    'functions are consistent',
    'filters are deterministic; data changes are announced by refreshing the node',
    'Gtk.TreeStore and Gtk.TreeView behave as documented (harness/gtkstub.py)',
]
STUBS = ['Gtk.TreeStore, Gtk.TreeView (replays: the real ones on a virtual display)']
E3 = ['toggle', 'add_parent', 'remove_parent', 'move', 'delete', 'add_node']


def model_column(tv, renderer, attribute='text'):
    """which column of the model a renderer shows"""
    if load._finder is not None:
        return renderer.__dict__.get('_attrs', {}).get(attribute, -1)
    from gi.repository import Gtk
    for col in Gtk.TreeView.get_columns(tv):
        if renderer in col.get_cells():
            return col.get_property('cell-area').attribute_get_column(renderer, attribute)
    return -1


def drawn(model, it, tv, cells):
    """what the widget draws in a row"""
    from gi.repository import Gtk
    for col in Gtk.TreeView.get_columns(tv):
        col.cell_set_cell_data(model, it, False, False)
    return dict((c, cells[c].get_property('text')) for c in cells)


def renderer():
    from gi.repository import Gtk
    return Gtk.CellRendererText()


def columns(m, ops, kindsets=((),), sorts=('no',), layouts=('given', 'orders'), spare=0):
    k = len(ops)

    def run(ctx):
        from gi.repository import Gtk
        args = draw_args(ctx, k)
        w = WWorld(ctx, m + spare)
        w.build(m)
        kinds = ctx.choice('filters', list(kindsets))
        view = w.tree.get_viewtree(name='shown' if kinds else None,
                                   refresh=not kinds)
        for kd in kinds:
            view.apply_filter(w.filter(kd))
        sort = ctx.choice('sort', list(sorts))
        layout = ctx.choice('layout', list(layouts))
        orders = []

        def bit(node):
            i = w.index(node.get_id())
            return w.data(i) if sort != 'no' else w.flips['f'][i]

        def compare(a, b, order):
            orders.append(order)
            return int(bit(a)) - int(bit(b))
        R = dict((c, renderer()) for c in ('name', 'size', 'mark'))
        F = {'name': lambda node: 'on' if bit(node) else '',
             'size': lambda node: 7 * int(bit(node)),
             'mark': lambda node: 1 - int(bit(node))}
        desc = {'name': {'value': [str, F['name']], 'renderer': ['text', R['name']]},
                'size': {'value': [int, F['size']], 'renderer': ['text', R['size']],
                         'sorting': 'size', 'visible': False},
                'mark': {'value': [int, F['mark']], 'renderer': ['text', R['mark']],
                         'sorting_func': compare, 'title': 'mark'}}
        if layout == 'later':
            # named before it is described
            desc['size']['sorting'] = 'mark'
            del desc['size']['visible']
        if layout == 'orders':
            desc['mark']['order'] = 0
            desc['name']['order'] = 1
            desc['name']['new_column'] = False
            desc['name']['renderer'][0] = 'markup'
            desc['size']['order'] = 2
        if layout == 'shared':
            desc['mark'] = {'value': [int, F['mark']], 'renderer': ['text', R['mark']],
                            'order': 0}
            desc['name']['order'] = 1
            desc['name']['new_column'] = False
            desc['size'] = {'value': [int, F['size']], 'renderer': ['text', R['size']],
                            'order': 2, 'sorting': 'mark'}
        tv = w.widget(view, desc)
        ctx.check([('all columns are there', sorted(tv.get_columns()) ==
                    ['mark', 'name', 'size'])])
        by = None
        order = 'ASCENDING'
        if sort != 'no':
            by, order = sort.split('-')
            if by == 'click':
                # the header of a column that is sorted by the one it names
                head = [c for c in Gtk.TreeView.get_columns(tv)
                        if R['size'] in c.get_cells()][0]
                for _ in range(int(order)):
                    del orders[:]
                    head.clicked()
                by, order = 'mark', ('DESCENDING', 'ASCENDING')[int(order) % 2]
            else:
                tv.set_sort_column(by, getattr(Gtk.SortType, order))
                ctx.check([('the sort column is known', tv.get_sort_column() ==
                            (by, getattr(Gtk.SortType, order)))])
        up = (order == 'ASCENDING') == (by != 'mark' or layout != 'shared')
        model = tv.get_model()

        def check(label):
            o = observe_view(w, view)
            got = []
            for p, g in w.gtk_paths(model):
                it = model.get_iter(g)
                got.append((p, drawn(model, it, tv, R)))
            D = w.D['f'] if sort != 'no' else w.flips['f']

            def conds():
                out = [('%s: the widget has the rows of the view' % label,
                        sorted(p for p, _ in got) == sorted(paths_of(o)))]
                for p, v in got:
                    if not isinstance(p[-1], int):
                        continue
                    for c, vals in (('name', ('', 'on')), ('size', ('0', '7')),
                                    ('mark', ('1', '0'))):
                        out.append(('%s: %s of %s is current' % (label, c, p),
                                    v[c] in vals and Iff(D[p[-1]], vals.index(v[c]) == 1)))
                if by:
                    level = {}
                    for p, v in got:
                        level.setdefault(p[:-1], []).append(p[-1])
                    for xs in level.values():
                        for a, b in zip(xs, xs[1:]):
                            if not up:
                                a, b = b, a
                            # both orders compare the symbolic bit
                            out.append(('%s: rows are sorted' % label,
                                        Or(Not(D[a]), D[b])))
                return out
            ctx.check_memo(('c19', w.key, label, str(got), o.sig, sort, layout,
                            tuple(w.flips['f'])),
                           lambda: [(l, Or(w.model.undef, c)) for l, c in conds()],
                           lambda: 'view %s\nrows %s' % (o.sig, got))
            if by == 'mark' and layout != 'shared':
                ctx.check([('the comparison is told the order', all(
                    x == getattr(Gtk.SortType, order) for x in orders))])
        check('initially')
        for s in range(k):
            name = ctx.choice('op%d' % s, ops[s])
            exc, refused = w.step(name, *args[s][:OPS[name]])
            ctx.check_memo((w.key, 'exc', exc is None), lambda: [
                ('%s raises nothing but refusals' % name,
                 Or(w.model.undef, Iff(exc is not None, refused)))],
                lambda: repr(exc) + tb(exc))
            check('after ' + name)
            ctx.cover('%s done' % name)
    return run


def fold(m, ops, kindsets=((),), spare=0, hows=('collapse', 'expand')):
    """collapse or expand a node that is shown now, later, or never"""
    k = len(ops)

    def run(ctx):
        args = draw_args(ctx, k + 1)
        mainloop.reset()
        w = WWorld(ctx, m + spare)
        w.build(m)
        kinds = ctx.choice('filters', list(kindsets))
        view = w.tree.get_viewtree(name='shown' if kinds else None,
                                   refresh=not kinds)
        for kd in kinds:
            view.apply_filter(w.filter(kd))
        tv = w.widget(view, {'name': {'value': [str, lambda node: node.get_id()]}})
        x = args[k][0]
        i = w.index(x)
        how = ctx.choice('how', list(hows))
        tv.calls = []
        # the widget opens rows of its own accord, too: only calls for this node count

        def mine():
            return sorted(p for a, p in tv.calls if a == how and p[-1] == i)
        exc = w.do_raw((how, str(x)), lambda: (
            tv.collapse_node if how == 'collapse' else tv.expand_node)((x,)))
        ctx.check([('%s raises no error' % how, exc is None)], lambda: repr(exc) + tb(exc))
        o = observe_view(w, view)
        done = o.shown[i]
        rows = sorted(p for p in paths_of(o) if p[-1] == i)
        if done:
            ctx.check([('all rows of a shown node at once', mine() == rows)],
                      lambda: (tv.calls, rows))
            ctx.cover('at once')
        else:
            ctx.check([('nothing before the node is shown', mine() == [])])
        for s in range(k):
            name = ctx.choice('op%d' % s, ops[s])
            if not done:
                tv.calls = []
            exc, refused = w.step(name, *args[s][:OPS[name]])
            if not done:
                ok = mainloop.run()
                o = observe_view(w, view)
                rows = sorted(p for p in paths_of(o) if p[-1] == i)
                if o.shown[i]:
                    ctx.check([('the main loop comes to rest', ok),
                               ('all rows when the node gets shown',
                                how == 'expand' or mine() == rows),
                               ('all rows when the node gets shown, at least once',
                                all(p in mine() for p in rows))],
                              lambda: (tv.calls, rows))
                    done = True
                    ctx.cover('later')
                elif how == 'collapse':
                    ctx.check([('nothing before the node is shown', mine() == [])])
    return run


SCENARIOS = [
    S('cols', columns(3, [E3], kindsets=((), ('own',))), 3,
      '3 nodes, any acyclic relation, 3 columns in any of two layouts, 1 operation',
      covers=['toggle done', 'move done'], stubs=STUBS),
    S('sorted', columns(3, [['toggle', 'move', 'add_parent', 'delete']],
                        sorts=('size-ASCENDING', 'size-DESCENDING', 'mark-ASCENDING',
                               'mark-DESCENDING')), 3,
      '3 nodes, any acyclic relation, sorted by value or function, both orders, '
      '1 operation', stubs=STUBS),
    S('shared', columns(3, [['toggle', 'move', 'add_parent']], layouts=('shared',),
                        sorts=('name-ASCENDING', 'name-DESCENDING', 'mark-ASCENDING',
                               'mark-DESCENDING', 'click-1', 'click-2')), 3,
      '3 nodes, any acyclic relation, columns sharing one, sorted by their values or by '
      'clicking the header of a column that names another one, 1 operation', stubs=STUBS),
    S('later', columns(3, [['toggle', 'move', 'add_parent']], layouts=('later',),
                       sorts=('name-DESCENDING', 'click-1', 'click-2')), 3,
      '3 nodes, any acyclic relation, sorted by clicking the header of a column that names '
      'one described later, 1 operation', stubs=STUBS),
    S('fold', fold(3, [['toggle', 'move', 'add_parent']], kindsets=(('own',),)), 3,
      '3 nodes, any acyclic relation, any node collapsed or expanded, 1 operation',
      covers=['at once', 'later'], stubs=STUBS),
    S('fold-new', fold(2, [['add_node', 'add_node_parent'], ['add_parent', 'toggle']],
                       spare=1), 3, '2 nodes, the node comes later, 2 operations',
      covers=['at once', 'later'], stubs=STUBS),
    S('large', large(columns(7, [['toggle', 'move', 'add_parent', 'delete']],
                             layouts=('given',), sorts=('size-ASCENDING', 'mark-DESCENDING')),
                     LARGE7, few=1), 7,
      '7 nodes in one of 6 large shapes, at most 1 with other values, sorted, 1 operation', sym_sets=False, stubs=STUBS),
    S('large-fold', large(fold(7, [['move', 'add_parent']]), LARGE7), 7,
      '7 nodes in one of 6 large shapes, any node collapsed or expanded, 1 operation', sym_sets=False, stubs=STUBS),
    S('sorted4', columns(4, [['toggle', 'move', 'add_parent', 'delete']],
                         layouts=('given',),
                         sorts=('size-ASCENDING', 'mark-DESCENDING')), 4,
      '4 nodes, sorted, 1 operation', tiers=T, stubs=STUBS),
    S('sorted-2', columns(3, [['toggle', 'move', 'add_parent', 'delete']] * 2,
                          layouts=('orders',),
                          sorts=('size-DESCENDING', 'mark-ASCENDING')), 3,
      '3 nodes, sorted, 2 operations', tiers=T, stubs=STUBS),
    S('cols-2', columns(3, [E3, E3], layouts=('orders',)), 3,
      '3 nodes, 2 operations', tiers=T, stubs=STUBS),
]
