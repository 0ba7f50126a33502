"""C21: settings of columns, colours and separators."""
from harness.core import draw_args
from harness.logic import And, Or, Not, Iff
from harness.views import observe_view, paths_of, tb
from harness.widget import WWorld
from harness.world import OPS
from props.c06 import S, T
from props.c19 import model_column

NEEDS_DISPLAY = True
ASSUMPTIONS = [
    'node identifiers are non-empty strings other than the reserved root names',
    'column functions return values of the type of the column or None',
    'a change of the colour function shows when the nodes are refreshed',
    'Gtk.TreeStore and Gtk.TreeView behave as documented (harness/gtkstub.py)',
]
STUBS = ['Gtk.TreeStore, Gtk.TreeView, Gtk.CellRenderer, Gdk.color_parse (replays: the '
         'real ones on a virtual display)']
E3 = ['toggle', 'move', 'add_parent', 'delete']
NAMES = ('b', 'a', 'c')


def cells(kinds):
    from gi.repository import Gtk
    return dict((c, getattr(Gtk, 'CellRenderer' + k)()) for c, k in kinds.items())


def gtk_columns(tv):
    from gi.repository import Gtk
    return Gtk.TreeView.get_columns(tv)


def settings():
    """which column a setting reaches, whatever their order"""
    def run(ctx):
        w = WWorld(ctx, 1)
        w.build(1)
        R = cells({'a': 'Text', 'b': 'Text', 'c': 'Text'})
        orders = ctx.choice('orders', [
            (None, None, None), (None, None, 0), (None, 3, None), (2, None, None),
            (None, 8, 7), (6, None, 5), (2, 1, None), (1, 2, None), (1, 2, 3), (1, 3, 2),
            (2, 1, 3), (2, 3, 1), (3, 1, 2), (3, 2, 1), (0, 20000, 10)])
        own = ctx.choice('own', [(True, True, True), (True, False, True),
                                 (True, True, False)])
        desc = {}
        for c, o, alone in zip(NAMES, orders, own):
            desc[c] = {'value': [str, (lambda c: lambda node: c)(c)],
                       'renderer': ['text', R[c]]}
            if o is not None:
                desc[c]['order'] = o
            if not alone:
                desc[c]['new_column'] = False
        # other kinds of renderers: markup in a shared column, none described
        shows = {'a': 'text', 'b': 'text', 'c': 'text'}
        for c, alone in zip(NAMES, own):
            if not alone:
                desc[c]['renderer'][0] = shows[c] = 'markup'
        if all(own):
            del desc['c']['renderer']
            shows['c'] = 'markup'
        flags = {}
        if all(own):
            for c in NAMES:
                flags[c] = dict((k, bool(ctx.decide('%s_%s' % (k, c))))
                                for k in (('visible', 'resizable') if c == 'a' else
                                          ('visible', 'expandable') if c == 'b' else ()))
                desc[c].update(flags[c])
                desc[c]['title'] = 'title of ' + c
        tv = w.widget(w.tree.get_viewtree(), desc)
        rank = sorted(range(3), key=lambda k: (orders[k] is None, orders[k] or 0, k))
        want = []
        for k in rank:
            if own[k] or not want:
                want.append([NAMES[k]])
            else:
                want[-1].append(NAMES[k])
        cols = gtk_columns(tv)
        if all(own):
            R['c'] = [x for col in cols for x in col.get_cells()
                      if x not in (R['a'], R['b'])][0]
        got = [[c for c in sorted(R) if R[c] in col.get_cells()] for col in cols]
        # (the first column has nothing to continue)
        ctx.check([('columns are in their order and shared as described',
                    got == [sorted(x) for x in want])], lambda: (got, want))
        ctx.cover('order' if own[rank[0]] else 'nothing to share')
        home = {}
        for c in NAMES:
            home[c] = [col for col in cols if R[c] in col.get_cells()][0]
        model = tv.get_model()
        it = model.get_iter_first()
        for col in cols:
            col.cell_set_cell_data(model, it, False, False)
        ctx.check([('every cell is drawn with its own value', all(
            R[c].get_property('text') == c for c in NAMES))],
            lambda: [R[c].get_property('text') for c in NAMES])
        for c in flags:
            ctx.check([
                ('visible as described',
                 home[c].get_visible() == flags[c].get('visible', True)),
                ('resizable as described',
                 home[c].get_resizable() == flags[c].get('resizable', True)),
                ('expandable as described',
                 home[c].get_expand() == flags[c].get('expandable', False)),
                ('title as described', home[c].get_title() == 'title of ' + c)])
        what = ctx.choice('what', ['visible', 'resizable', 'expander', 'search', 'sort'])
        c = ctx.choice('column', list(NAMES))
        value = bool(ctx.decide('value'))
        if what == 'visible':
            before = [col.get_visible() for col in cols]
            tv.set_col_visible(c, value)
            ctx.check([('visibility of the named column alone', [
                col.get_visible() for col in cols] == [
                value if col is home[c] or col == home[c] else x
                for col, x in zip(cols, before)])])
        elif what == 'resizable':
            before = [col.get_resizable() for col in cols]
            tv.set_col_resizable(c, value)
            ctx.check([('the named column alone', [
                col.get_resizable() for col in cols] == [
                value if col == home[c] else x for col, x in zip(cols, before)])])
        elif what == 'expander':
            tv.set_expander_column(c)
            ctx.check([('expander column', tv.get_expander_column() == home[c])])
        elif what == 'search':
            tv.set_main_search_column(c)
            ctx.check([('search column', tv.get_search_column() == model_column(
                tv, R[c], shows[c]))])
        else:
            from gi.repository import Gtk
            order = Gtk.SortType.DESCENDING if value else Gtk.SortType.ASCENDING
            tv.set_sort_column(c, order)
            ctx.check([('the model is sorted by the named column',
                        tuple(model.get_sort_column_id()) ==
                        (model_column(tv, R[c], shows[c]), order)),
                       ('the sort column is known', tv.get_sort_column() == (c, order))])
        tv.set_multiple_selection(value)
        from gi.repository import Gtk
        ctx.check([('one or several rows can be selected', tv.get_selection().get_mode() ==
                    (Gtk.SelectionMode.MULTIPLE if value else Gtk.SelectionMode.SINGLE))])
        ctx.cover(what)
    return run


# colours: (dark?, specification); two data bits choose
COLOURS = ['#000000', '#00f000', '#ff0000', '#0000ff', '#ffffff', '#606060', '#f0f', '#9a9a9a',
           '#000080', None,
           # the light and the dark side of the limit, for blue and for red
           '#00a1ff', '#00a180', '#ff6700', '#ff6600']
DARK = {'#000000': True, '#00f000': False, '#ff0000': True, '#0000ff': True,
        '#ffffff': False, '#606060': True, '#f0f': True, '#9a9a9a': False, '#000080': True, None: False,
        '#00a1ff': False, '#00a180': True, '#ff6700': False, '#ff6600': True}


def rgb(spec):
    if spec is None:
        return None
    h = spec[1:]
    n = len(h) // 3
    return tuple(int(h[k * n:k * n + n] * (2 // n), 16) for k in range(3))


def shown_rgb(c):
    return tuple(int(round(x * 255)) for x in (c.red, c.green, c.blue))


def colours(m, ops, kindsets=((),), late=(False,)):
    k = len(ops)

    def run(ctx):
        args = draw_args(ctx, k)
        w = WWorld(ctx, m)
        w.build(m)
        kinds = ctx.choice('filters', list(kindsets))
        view = w.tree.get_viewtree(refresh=not kinds)
        for kd in kinds:
            view.apply_filter(w.filter(kd))
        on, off = ctx.choice('colours', [(COLOURS[i], COLOURS[i + 1])
                                         for i in range(0, len(COLOURS), 2)])
        R = cells({'name': 'Text', 'mark': 'Toggle'})
        desc = {'name': {'value': [str, lambda node: node.get_id()],
                         'renderer': ['text', R['name']], 'order': 2},
                'mark': {'value': [bool, lambda node: True],
                         'renderer': ['active', R['mark']], 'order': 3},
                'paint': {'value': [str, lambda node: '#ffffff'], 'visible': False,
                          'order': 1}}
        tv = w.widget(view, desc)
        defaults = []

        def paint(node, default):
            defaults.append(default)
            return on if w.data(w.index(node.get_id())) else off
        # before anything is set there is no background
        model = tv.get_model()

        def paints():
            out = []
            for p, g in w.gtk_paths(model):
                it = model.get_iter(g)
                for col in gtk_columns(tv):
                    col.cell_set_cell_data(model, it, False, False)
                row = {}
                for c, r in R.items():
                    row[c] = (shown_rgb(r.get_property('cell-background-rgba'))
                              if r.get_property('cell-background-set') else None)
                row['text'] = (shown_rgb(R['name'].get_property('foreground-rgba'))
                               if R['name'].get_property('foreground-set') else None)
                # colouring leaves the other columns alone
                ident = R['name'].get_property('text')
                row['id'] = w.index(ident) if ident else None
                row['on'] = R['mark'].get_property('active')
                out.append((p, row))
            return out
        ctx.check([('no colours before they are set', all(
            row[x] is None for p, row in paints() for x in ('name', 'mark', 'text')))])
        exc = w.do_raw('unknown column', lambda: tv.set_bg_color(paint, 'nowhere'))
        ctx.check([('an unknown column is refused', isinstance(exc, ValueError))])
        exc = w.do_raw('colour', lambda: tv.set_bg_color(paint, 'paint'))
        ctx.check([('a known column is not', exc is None)], lambda: repr(exc) + tb(exc))
        w.step('refresh_all')

        def check(label):
            o = observe_view(w, view)
            got = paints()

            def conds():
                out = [('%s: every row is painted' % label,
                        sorted(p for p, _ in got) == sorted(paths_of(o)))]
                for p, row in got:
                    i = p[-1]
                    if not isinstance(i, int):
                        continue
                    now = w.D['f'][i]
                    good = False
                    for b, spec in ((True, on), (False, off)):
                        same = (row['id'] == i and row['on'] is True and
                                row['name'] == rgb(spec) and row['mark'] == rgb(spec) and
                                row['text'] == ((255, 255, 255) if DARK[spec] else None))
                        good = Or(good, And(same, Iff(now, b)))
                    out.append(('%s: %s has its colours' % (label, p), good))
                return out
            ctx.check_memo(('c21', w.key, label, str(got), o.sig, on, tuple(w.flips['f'])),
                           lambda: [(l, Or(w.model.undef, c)) for l, c in conds()],
                           lambda: 'view %s\nrows %s, %s or %s' % (o.sig, got, on, off))
        check('at first')
        ctx.check([('the function gets a default', all(d is not None for d in defaults))])
        for s in range(k):
            name = ctx.choice('op%d' % s, ops[s])
            exc, refused = w.step(name, *args[s][:OPS[name]])
            ctx.check_memo((w.key, 'exc', exc is None), lambda: [
                ('%s raises nothing but refusals' % name,
                 Or(w.model.undef, Iff(exc is not None, refused)))],
                lambda: repr(exc) + tb(exc))
            check('after ' + name)
            ctx.cover('%s done' % name)
    return run


def separators(m, ops, kindsets=((),)):
    k = len(ops)

    def run(ctx):
        args = draw_args(ctx, k)
        w = WWorld(ctx, m)
        w.build(m)
        kinds = ctx.choice('filters', list(kindsets))
        view = w.tree.get_viewtree(refresh=not kinds)
        for kd in kinds:
            view.apply_filter(w.filter(kd))
        tv = w.widget(view, {'name': {'value': [str, lambda node: node.get_id()]}})
        from gi.repository import Gtk
        told = []
        orig = Gtk.TreeView.__dict__.get('set_row_separator_func')
        real = Gtk.TreeView.set_row_separator_func

        def listen(self, func, *data):
            told.append((func, data))
            return real(self, func, *(data or (None, )))
        Gtk.TreeView.set_row_separator_func = listen
        model = tv.get_model()
        try:
            tv.set_row_separator_func(lambda node: w.data(w.index(node.get_id())))
            ctx.check([('Gtk is told', len(told) == 1)])

            def check(label, off=False):
                o = observe_view(w, view)
                func, data = told[-1]
                got = []
                for p, g in w.gtk_paths(model):
                    x = func(model, model.get_iter(g), *(data or (None, ))) \
                        if func is not None else False
                    got.append((p, bool(x)))

                def conds():
                    out = [('%s: asked for all rows' % label,
                            sorted(p for p, _ in got) == sorted(paths_of(o)))]
                    for p, x in got:
                        i = p[-1]
                        now = False if off else \
                            w.D['f'][i]
                        out.append(('%s: %s is a separator if its node is' % (label, p),
                                    Iff(now, x)))
                    return out
                ctx.check_memo(('c21s', w.key, label, str(got), o.sig, off,
                                tuple(w.flips['f'])),
                               lambda: [(l, Or(w.model.undef, c)) for l, c in conds()],
                               lambda: 'view %s\nrows %s' % (o.sig, got))
            check('at first')
            for s in range(k):
                name = ctx.choice('op%d' % s, ops[s])
                exc, refused = w.step(name, *args[s][:OPS[name]])
                check('after ' + name)
                ctx.cover('%s done' % name)
            tv.set_row_separator_func(None)
            check('without separators', True)
        finally:
            if orig is None:
                del Gtk.TreeView.set_row_separator_func
            else:
                Gtk.TreeView.set_row_separator_func = orig
    return run


SCENARIOS = [
    S('settings', settings(), 1, '3 columns in any described order, sharing or not, any '
      'flags, any setting of any of them', covers=[
          'order', 'nothing to share', 'visible', 'resizable', 'expander', 'search', 'sort'], stubs=STUBS),
    S('colour', colours(3, [E3]), 3,
      '3 nodes with symbolic data, any acyclic relation, 5 pairs of colours, no colour among them, 1 operation',
      covers=['toggle done', 'move done'], stubs=STUBS),
    S('colour-own', colours(2, [E3], kindsets=(('other',),)), 2,
      '2 nodes, filtered view, 1 operation', stubs=STUBS),
    S('separator', separators(3, [E3]), 3,
      '3 nodes with symbolic data, any acyclic relation, 1 operation',
      covers=['toggle done'], stubs=STUBS),
    S('colour-2', colours(3, [E3, E3]), 3, '3 nodes, 2 operations', tiers=T, stubs=STUBS),
    S('separator4', separators(4, [E3]), 4, '4 nodes, 1 operation', tiers=T, stubs=STUBS),
]
