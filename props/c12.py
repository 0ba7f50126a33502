"""C12: the rows of the Gtk model are the rows of the view."""
from harness.core import draw_args
from harness.logic import And, Or, Not, Iff
from harness.views import VWorld, observe_view, paths_of, tb
from harness.world import LARGE7, large, OPS, quiet
from props.c06 import S, T

ASSUMPTIONS = [
    'node identifiers are non-empty strings other than the reserved root names',
    'filters are deterministic; data changes are announced by refreshing the node',
    'column functions return values of the type of the column or None, which shows as no '
    'text, zero or False',
    'Gtk.TreeStore behaves as documented (harness/gtkstub.py); an iterator of a '
    'removed row never becomes valid again',
    'requests are made from the thread that created the tree',
]

STUBS = ['Gtk.TreeStore (replays use the real one)']


class GWorld(VWorld):
    """World with a Gtk model"""

    EXTRA = ('liblarch_gtk.treemodel',)

    def make(self, view, types):
        return self.mods[1].TreeModel(view, types)


def gtk_rows(w, model, ncol):
    """[(path, values)] in the order of the model, depth first"""
    out = []

    def walk(it, pre):
        while it is not None:
            p = pre + (w.index(model.get_value(it, 0)),)
            out.append((p, tuple(model.get_value(it, c) for c in range(1, ncol))))
            if len(p) < 12:
                walk(model.iter_children(it), p)
            it = model.iter_next(it)
    walk(model.get_iter_first(), ())
    return out


def by_parent(paths):
    d = {}
    for p in paths:
        d.setdefault(p[:-1], []).append(p[-1])
    return d


EDITS = ['toggle', 'add_parent', 'remove_parent', 'move', 'move_root', 'delete',
         'add_node', 'add_node_parent', 'delete_rec']


def rows(m, ops, kindsets=((),), sort=('no',), when=('after',), spare=0, swap=False, forest=False,
         company=('no',)):
    """company: another model on the same view, or the same one connected again,
    at once or after the first operation"""
    k = len(ops)

    def run(ctx):
        from harness.world import assume_forest
        args = draw_args(ctx, k)
        if forest:
            assume_forest(ctx, m)
        w = GWorld(ctx, m + spare)
        kinds = ctx.choice('filters', list(kindsets))
        first = ctx.choice('when', list(when))
        how = ctx.choice('sort', list(sort))
        more = ctx.choice('company', list(company))
        models = []

        # three columns; each takes a value that counts as false for Python
        def bit(node):
            i = w.index(node.get_id())
            return w.data(i) if how == 'data' else w.flips['f'][i]
        VAL = [lambda b: int(b), lambda b: 'set' if b else '', lambda b: bool(b)]
        if swap:
            VAL[1] = lambda b: 'set' if b else None

        def column(c, swapped=False):
            # functions may return None
            return lambda node: VAL[c](bit(node) != swapped) or (
                None if swap else VAL[c](False))

        def view():
            v = w.tree.get_viewtree(name='shown' if kinds else None,
                                    refresh=not kinds)
            for kd in kinds:
                v.apply_filter(w.filter(kd), refresh=(kd == kinds[-1]))
            return v
        types = [[int, column(0)], [str, column(1)], [bool, column(2)]]
        if swap and ctx.choice('pairs', ['lists', 'tuples']) == 'tuples':
            types = [tuple(x) for x in types]
        if first == 'before':
            v = view()
            model = w.make(v, types)
            model.connect_model()
            w.build(m)
        else:
            w.build(m)
            v = view()
            model = w.make(v, types)
            if first == 'midway':
                pass
            else:
                model.connect_model()
        if how == 'id':
            model.set_sort_column_id(0, sort_type('ASCENDING'))
        elif how == 'data':
            model.set_sort_column_id(1, sort_type('DESCENDING'))
        # one of the columns keeps its function
        swapped = [False, ctx.choice('keep', [0, 1, 2]) if swap else None]

        def check(label):
            o = observe_view(w, v)
            for other in models:
                check_one(label + ' (another model)', other, o)
            check_one(label, model, o, swapped)

        def check_one(label, model, o, swapped=(False, None)):
            got = gtk_rows(w, model, 4)
            want = paths_of(o)

            def conds():
                out = [('%s: the model has exactly the rows of the view' % label,
                        sorted(p for p, _ in got) == sorted(want))]
                if how == 'no':
                    out.append(('%s: rows are in the order of the view' % label,
                                by_parent([p for p, _ in got]) == by_parent(want)))
                if how == 'data':
                    d = {}
                    for p, (x, _, _) in got:
                        d.setdefault(p[:-1], []).append(x)
                    out.append(('%s: rows are sorted' % label,
                                all(x == sorted(x, reverse=True) for x in d.values())))
                D = w.D['f'] if how == 'data' else w.flips['f']
                for p, xs in got:
                    if isinstance(p[-1], int):
                        now = D[p[-1]]
                        for c in range(3):
                            inv = swapped[0] and c != swapped[1]
                            ok = False
                            for b in (False, True):
                                ok = Or(ok, And(VAL[c](b != inv) == xs[c], Iff(now, b)))
                            out.append(('%s: column %d of %s is current' % (
                                label, c + 1, p), ok))
                return out
            ctx.check_memo(('c12', w.key, label, tuple(got), tuple(want), how, tuple(swapped),
                            tuple(w.flips['f'])),
                           lambda: [(l, Or(w.model.undef, c)) for l, c in conds()],
                           lambda: 'view %s\nmodel %s' % (o.sig, got))
            if how == 'id':
                ids = {}
                for p, _ in got:
                    ids.setdefault(p[:-1], []).append(p[-1])
                for xs in ids.values():
                    for a, b in zip(xs, xs[1:]):
                        ctx.check([('%s: rows are sorted' % label,
                                    ctx.less(a, b))])
        def join():
            if more.startswith('another'):
                # described the same way
                models.append(w.make(v, types))
                models[-1].connect_model()
            else:
                model.connect_model()
            check('after connecting ' + more)
        if first != 'midway':
            check('initially')
        if more in ('another', 'again'):
            join()
        for s in range(k):
            name = ctx.choice('op%d' % s, ops[s])
            a = args[s][:OPS[name]]
            exc, refused = w.step(name, *a)
            ctx.check_memo((w.key, 'exc', exc is None), lambda: [
                ('%s raises nothing but refusals' % name,
                 Or(w.model.undef, Iff(exc is not None, refused)))],
                lambda: repr(exc) + tb(exc))
            if first == 'midway' and s == 0:
                model.connect_model()
            if swap and s == 0:
                # another function for the columns, then every row is refreshed
                swapped[0] = True
                ctx.check([('known columns can be replaced', all(
                    model.set_column_function(c + 1, column(c, True)) is True
                    for c in (0, 1, 2) if c != swapped[1])),
                           ('unknown columns cannot',
                            model.set_column_function(4, column(1)) is False)])
                w.step('refresh_all')
            check('after ' + name)
            if s == 0 and more.endswith('later'):
                join()
            ctx.cover('%s done' % name)
    return run


def sort_type(name):
    from gi.repository import Gtk
    return getattr(Gtk.SortType, name)


E3 = ['toggle', 'add_parent', 'remove_parent', 'move', 'delete']
SCENARIOS = [
    S('n4-1', rows(4, [EDITS], spare=0), 4,
      '4 nodes, any acyclic relation, no filter, 1 operation',
      covers=['move done', 'delete done', 'toggle done'], stubs=STUBS),
    S('n3-2', rows(3, [E3 + ['move_root'], E3]), 3,
      '3 nodes, any acyclic relation, no filter, 2 operations', stubs=STUBS),
    S('n3-own', rows(3, [E3 + ['add_node', 'add_node_parent']],
                     kindsets=(('own',), ('own', 'other+flat')), spare=1,
                     when=('after', 'before', 'midway')), 4,
      '3 nodes, any acyclic relation, filters on symbolic data, 1 operation, the '
      'model connected before, in between or after', stubs=STUBS),
    S('n3-sorted', rows(3, [E3], sort=('id', 'data')), 3,
      '3 nodes, sorted by identifier or by data, 1 operation', stubs=STUBS),
    S('n2-4', rows(2, [E3] * 3, spare=0), 2, '2 nodes, 3 operations', stubs=STUBS),
    S('n2-swap', rows(2, [E3, E3], swap=True), 2,
      '2 nodes, the function of a column is replaced', stubs=STUBS),
    S('n2-swap-company', rows(2, [E3, E3], swap=True, company=('another',)), 2,
      '2 nodes, the function of a column is replaced in one of two models with the same '
      'description', stubs=STUBS),
    S('n3-late3', rows(3, [['remove_parent', 'move_root', 'delete'], ['add_node', 'move', 'add_parent'],
                           ['toggle', 'remove_parent', 'delete']], forest=True), 3,
      '3 nodes, any forest, a row goes, one comes, one changes', stubs=STUBS),
    S('n3-company', rows(3, [E3], kindsets=((), ('own',)), company=(
        'another', 'again', 'another later', 'again later')), 3,
      '3 nodes, another model on the same view or the same one connected again, '
      '1 operation', stubs=STUBS),
    S('n2-company', rows(2, [E3 + ['add_node'], E3], spare=1, company=(
        'another', 'again', 'another later', 'again later')), 3,
      '2 nodes, another model on the same view or the same one connected again, '
      '2 operations', stubs=STUBS),
    S('large', large(rows(7, [EDITS], kindsets=((), ('own',))), LARGE7, few=1), 7,
      '7 nodes in one of 6 large shapes, at most 1 node hidden, 1 operation', sym_sets=False, stubs=STUBS),
    S('n4-2', rows(4, [E3 + ['move_root'], E3], forest=True), 4,
      '4 nodes, any forest, 2 operations', tiers=T, stubs=STUBS),
    S('n3-3', rows(3, [E3, E3, E3]), 3, '3 nodes, 3 operations', tiers=T, stubs=STUBS),
    S('n4-sorted', rows(4, [E3], sort=('id', 'data')), 4,
      '4 nodes, sorted, 1 operation', tiers=T, stubs=STUBS),
    S('n3-sorted2', rows(3, [E3, E3], sort=('id', 'data')), 3,
      '3 nodes, sorted, 2 operations', tiers=T, stubs=STUBS),
]
