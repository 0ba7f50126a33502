"""Filtered views next to their specification."""
from .logic import And, Or, Not, Iff, Implies, Ite, Count
from .spec import pick
from .world import World, OPS, quiet, assume_forest


class Mirror(object):
    """What a widget knows that only listens to the events of a view.

    rows: path (tuple of node indices) -> list of the paths of its children.
    Any event that does not fit the rows it already has is an error."""

    def __init__(self, w, view, strict=True):
        self.w = w
        self.rows = {(): []}
        self.errors = []
        self.events = []
        self.view = view
        self.keys = [
            ('node-added-inview', view.register_cllbck('node-added-inview', self.added)),
            ('node-deleted-inview', view.register_cllbck('node-deleted-inview', self.deleted)),
            ('node-modified-inview', view.register_cllbck('node-modified-inview', self.modified)),
        ]

    def path(self, path):
        return tuple(self.w.index(p) for p in path)

    def added(self, nid, path):
        p = self.path(path)
        self.events.append(('added', p))
        if not p or self.w.index(nid) != p[-1]:
            self.errors.append(('added: path does not end in the node', p))
            return
        if p in self.rows:
            self.errors.append(('added: row is already there', p))
            return
        if p[:-1] not in self.rows:
            self.errors.append(('added: parent row is missing', p))
            return
        self.rows[p] = []
        self.rows[p[:-1]].append(p)

    def deleted(self, nid, path):
        p = self.path(path)
        self.events.append(('deleted', p))
        if not p or self.w.index(nid) != p[-1]:
            self.errors.append(('deleted: path does not end in the node', p))
            return
        if p not in self.rows:
            self.errors.append(('deleted: row is not there', p))
            return
        if self.rows[p]:
            self.errors.append(('deleted: row still has children', p))
            return
        del self.rows[p]
        self.rows[p[:-1]].remove(p)

    def modified(self, nid, path):
        p = self.path(path)
        self.events.append(('modified', p))
        if not p or self.w.index(nid) != p[-1]:
            self.errors.append(('modified: path does not end in the node', p))
        elif p not in self.rows:
            self.errors.append(('modified: row is not there', p))

    def structure(self):
        return [e for e in self.events if e[0] != 'modified']

    def clear(self):
        self.events = []
        self.errors = []


class ViewObs(object):
    pass


def observe_view(w, view):
    o = ViewObs()
    ids = w.ctx.ids
    n = w.n
    o.shown = [bool(view.is_displayed(ids[i])) for i in range(n)]
    o.all = [w.index(i) for i in view.get_all_nodes()]
    o.root = [w.index(c) for c in view.node_all_children()]
    o.children = [[w.index(c) for c in view.node_all_children(ids[i])]
                  if o.shown[i] else [] for i in range(n)]
    o.parents = [[w.index(p) for p in view.node_parents(ids[i])]
                 if o.shown[i] else [] for i in range(n)]
    o.sig = (tuple(o.shown), tuple(o.all), tuple(o.root),
             tuple(map(tuple, o.children)), tuple(map(tuple, o.parents)))
    return o


def paths_of(o):
    """all row paths of an observed view, parents before children"""
    out = []
    todo = [(r,) for r in o.root]
    while todo:
        p = todo.pop(0)
        out.append(p)
        if len(p) > 12 or not isinstance(p[-1], int):
            return out
        todo += [p + (c,) for c in o.children[p[-1]]]
    return out


class VWorld(World):
    """World whose nodes carry data (one symbolic Boolean each per colour)."""

    def __init__(self, ctx, n, colours=('f', 'g')):
        World.__init__(self, ctx, n)
        self.colours = colours
        self.flips = {c: [False] * n for c in colours}
        self.D = {c: [ctx.bool('%s%d' % (c, i)) for i in range(n)] for c in colours}
        self.filters = {}

    # data of the nodes ---------------------------------------------------------
    def data(self, i, colour='f'):
        """the concrete datum on this path (decided lazily)"""
        return self.ctx.decide('%s%d' % (colour, i)) != self.flips[colour][i]

    def _do_toggle(self, x, colour='f'):
        i = self.index(x)
        self.flips[colour][i] = not self.flips[colour][i]
        if self.tree.has_node(x) and self.modified_by_node:
            self.tree.get_node(x).modified()
        else:
            self.tree.refresh_node(x)

    modified_by_node = False

    def _do_batch(self):
        """any set of nodes changes its data at once; then they are refreshed"""
        t = len(self.hist)
        n = self.n
        ch = [i for i in range(n) if self.ctx.decide('b%d_%d' % (t, i))]
        for i in ch:
            self.flips['f'][i] = not self.flips['f'][i]
        how = self.ctx.choice('border%d' % t, ['fwd', 'rev', 'all'])
        if how == 'all':
            self.tree.refresh_all()
        else:
            for i in (ch if how == 'fwd' else ch[::-1]):
                self.tree.refresh_node(self.ctx.ids[i])


    def step(self, name, *args):
        exc, refused = World.step(self, name, *args)
        if name == 'batch':
            t = len(self.hist)
            old = self.D['f']
            self.D = dict(self.D)
            self.D['f'] = self._memo(('D', self.key), lambda: [
                Not(Iff(self.ctx.bool('b%d_%d' % (t, i)), old[i]))
                for i in range(self.n)])
        if name == 'toggle':
            X = self.X(args[0])
            old = self.D['f']
            self.D = dict(self.D)
            self.D['f'] = self._memo(('D', self.key), lambda: [
                Ite(X[i], Not(old[i]), old[i]) for i in range(self.n)])
        return exc, refused

    # filters ---------------------------------------------------------------------
    def filter(self, kind):
        """register the filter `kind` (once); returns its name"""
        if kind not in self.filters:
            func = getattr(self, 'flt_' + kind.partition('+')[0])
            params = {}
            if kind.endswith('+flat'):
                params = {'flat': True}
            elif kind.endswith('+neg'):
                params = {'negate': True}
            if params:
                self.tree.add_filter(kind, lambda node, parameters=None: func(node),
                                     dict(params))
            else:
                self.tree.add_filter(kind, func)
            self.filters[kind] = True
        return kind

    def flt_own(self, node):
        return self.data(self.index(node.get_id()))

    def flt_other(self, node):
        return self.data(self.index(node.get_id()), 'g')

    def flt_leaf(self, node):
        return not node.has_child()

    def flt_ownleaf(self, node):
        """workable: data set and no child with data set"""
        if not self.data(self.index(node.get_id())):
            return False
        for c in node.get_children():
            if self.data(self.index(c)):
                return False
        return True

    def flt_top(self, node):
        return not node.has_parent()

    def flt_kidd(self, node):
        """a node without children, or with a child that has data set"""
        kids = node.get_children()
        for c in kids:
            if self.data(self.index(c)):
                return True
        return not kids

    def flt_pard(self, node):
        """a node without parents, or with a parent that has data set"""
        ps = node.get_parents()
        for p in ps:
            if self.data(self.index(p)):
                return True
        return not ps

    def flt_anyd(self, node):
        """recursive: itself or a descendant has data set"""
        if self.data(self.index(node.get_id())):
            return True
        t = node.get_tree()
        return any(self.flt_anyd(t.get_node(c)) for c in node.get_children())

    def accepted(self, kind):
        """formula list: the filter accepts node i"""
        m, n = self.model, self.n
        base, _, mod = kind.partition('+')
        D = self.D['f']
        if base == 'own':
            acc = list(D)
        elif base == 'other':
            acc = list(self.D['g'])
        elif base == 'leaf':
            acc = [And(*[Not(m.E[i][c]) for c in range(n)]) for i in range(n)]
        elif base == 'top':
            acc = [And(*[Not(m.E[p][i]) for p in range(n)]) for i in range(n)]
        elif base == 'ownleaf':
            acc = [And(D[i], *[Not(And(m.E[i][c], D[c])) for c in range(n)])
                   for i in range(n)]
        elif base == 'kidd':
            acc = [Or(And(*[Not(m.E[i][c]) for c in range(n)]),
                      *[And(m.E[i][c], D[c]) for c in range(n)])
                   for i in range(n)]
        elif base == 'pard':
            acc = [Or(And(*[Not(m.E[p][i]) for p in range(n)]),
                      *[And(m.E[p][i], D[p]) for p in range(n)])
                   for i in range(n)]
        elif base == 'anyd':
            acc = [Or(D[i], *[And(m.R[i][c], D[c]) for c in range(n)])
                   for i in range(n)]
        elif base == 'all':
            acc = [True] * n
        else:
            raise KeyError(kind)
        if mod == 'neg':
            acc = [Not(a) for a in acc]
        return acc

    # specification of a view -----------------------------------------------------
    def view_spec(self, kinds):
        """(shown, VE, top) formulas for a view with these filters applied"""
        kinds = tuple(kinds)

        def mk():
            m, n = self.model, self.n
            accs = [self.accepted(k) for k in kinds]
            shown = [And(m.pres[i], *[a[i] for a in accs]) for i in range(n)]
            flat = any(k.endswith('+flat') for k in kinds)
            if flat:
                VE = [[False] * n for _ in range(n)]
            else:
                VE = [[And(m.E[p][c], shown[p], shown[c]) for c in range(n)]
                      for p in range(n)]
            top = [And(shown[c], *[Not(VE[p][c]) for p in range(n)])
                   for c in range(n)]
            return shown, VE, top
        return self._memo(('vspec', kinds, self.key), mk)

    def view_conds(self, o, kinds, label='view'):
        shown, VE, top = self.view_spec(kinds)
        n = self.n
        u = self.model.undef
        out = []
        for i in range(n):
            out.append(('%s: node %d shown' % (label, i),
                        Or(u, Iff(o.shown[i], shown[i]))))
            out.append(('%s: node %d at top level' % (label, i),
                        Or(u, Iff(i in o.root, top[i]))))
            for c in range(n):
                out.append(('%s: %d shown below %d' % (label, c, i),
                            Or(u, Iff(c in o.children[i], VE[i][c]))))
        return out + self.view_facts(o, label)

    def view_facts(self, o, label='view'):
        n = self.n
        shown = [i for i in range(n) if o.shown[i]]
        out = [('%s: shown nodes are listed once' % label,
                sorted(map(str, o.all)) == sorted(map(str, shown))),
               ('%s: top level lists no node twice' % label,
                len(set(o.root)) == len(o.root))]
        for i in shown:
            out.append(('%s: children of %d are listed once' % (label, i),
                        len(set(o.children[i])) == len(o.children[i])))
            out.append(('%s: parents of %d are listed once' % (label, i),
                        len(set(o.parents[i])) == len(o.parents[i])))
            ps = [p for p in shown if i in o.children[p]]
            out.append(('%s: both ends agree on the parents of %d' % (label, i),
                        sorted(map(str, ps)) == sorted(map(str, o.parents[i]))))
        return out


def mirror_conds(w, mir, o, label='events', order=True):
    """the rows a listener has built are the rows of the view"""
    want = paths_of(o)
    out = [('%s: every event fits the rows so far' % label, not mir.errors),
           ('%s: the rows built from the events are the rows of the view' % label,
            sorted(mir.rows) == sorted([()] + want))]
    if order:
        ok = [p[-1] for p in mir.rows[()]] == o.root
        for p in want:
            ok = ok and p in mir.rows and \
                [c[-1] for c in mir.rows[p]] == o.children[p[-1]]
        out.append(('%s: children come in the same order' % label, ok))
    return out


def vedits(m, ops, kindsets, contents=True, events=False, spare=0,
           orders=('fwd',), when=('after',), forest=False, modified=False,
           order=True, allowed=None):
    """An arbitrary acyclic tree of m nodes with symbolic data, a view with a
    symbolic choice of filters created before or after the tree is filled, then
    len(ops) symbolic operations.  After each: contents and/or events."""
    from .core import draw_args
    k = len(ops)

    def run(ctx):
        args = draw_args(ctx, k)
        if forest:
            assume_forest(ctx, m)
        if allowed is not None:
            # only these relationships may exist at the start
            ctx.assume_global('allowed%d' % m, lambda: And(*[
                Not(ctx.bool('e%d%d' % (p, c))) for c in range(m)
                for p in range(c) if (p, c) not in allowed]))
        w = VWorld(ctx, m + spare)
        w.modified_by_node = modified
        kinds = ctx.choice('filters', kindsets)
        first = ctx.choice('when', when)

        def make():
            view = w.tree.get_viewtree(refresh=not kinds)
            for kd in kinds:
                view.apply_filter(w.filter(kd), refresh=(kd == kinds[-1]))
            return view
        if first == 'before':
            view = make()
            mir = Mirror(w, view)
            w.build(m, orders=orders)
        else:
            w.build(m, orders=orders)
            view = make()
            mir = Mirror(w, view)
            view.get_current_state()

        def check(label, touched=()):
            o = observe_view(w, view)
            if events:
                told = {p for kd, p in mir.events if kd != 'deleted'}
                silent = [p for p in paths_of(o) if p[-1] in touched and p not in told]
                ctx.check([('%s: every row of a refreshed node is announced' % label,
                            not silent)], lambda: (silent, mir.events))

            def mk():
                out = []
                if contents:
                    out += w.view_conds(o, kinds, label)
                if events:
                    out += mirror_conds(w, mir, o, label, order)
                return out
            key = ('v', w.key, kinds, o.sig)
            if events:
                key += (tuple(sorted(mir.rows)), tuple(map(tuple, mir.rows.values())),
                        bool(mir.errors))
            ctx.check_memo(key, mk, lambda: 'filters=%s\nview %s\nrows %s\n'
                           'errors %s\nevents %s' % (kinds, o.sig, mir.rows,
                                                     mir.errors, mir.events))
            mir.clear()
            return o
        check('initially')
        for s in range(k):
            name = ctx.choice('op%d' % s, ops[s])
            a = args[s][:OPS[name]]
            exc, refused = w.step(name, *a)
            ctx.check_memo((w.key, 'exc', exc is None), lambda: [
                ('%s raises nothing but refusals' % name,
                 Or(w.model.undef, Iff(exc is not None, refused)))],
                lambda: repr(exc) + tb(exc))
            touched = ()
            if name in ('toggle', 'refresh'):
                touched = (w.index(a[0]),)
            elif name == 'refresh_all':
                touched = tuple(range(w.n))
            check('after ' + name, touched)
            ctx.cover('%s done' % name)
    return run


def tb(exc):
    import traceback
    if exc is None:
        return ''
    return ''.join(traceback.format_exception(type(exc), exc, exc.__traceback__))
