"""Drives the public API of liblarch on symbolic inputs next to the reference
model."""
import contextlib
import itertools
import io
import sys

from . import load
from .logic import And, Or, Not, Iff, Ite
from .spec import Model

# operation name -> number of identifier arguments
OPS = {
    'add_node': 1, 'add_node_parent': 2, 'ctor_parent': 2, 'ctor_child': 2,
    'add_parent': 2, 'add_child': 2, 'remove_parent': 2, 'move': 2,
    'set_parent': 2, 'move_root': 1, 'delete': 1, 'delete_rec': 1,
    'refresh': 1, 'refresh_all': 0, 'readd': 1, 'readd_parent': 2,
    'no_children': 1, 'no_parents': 1, 'toggle': 1, 'batch': 0,
}


class _Null(object):
    def write(self, s):
        pass

    def flush(self):
        pass


@contextlib.contextmanager
def quiet():
    """The library prints diagnostics; they are not part of any property."""
    old = sys.stdout
    sys.stdout = _Null()
    try:
        yield
    finally:
        sys.stdout = old


class Observed(object):
    """What the public API says about the tree on this path."""


class World(object):
    EXTRA = ()                # further modules of /repo to load

    def __init__(self, ctx, n):
        self.ctx = ctx
        self.n = n
        mods = load.fresh(*self.EXTRA, threading=self.threading())
        self.L = mods[0] if self.EXTRA else mods
        self.mods = mods
        self.tree = self.L.Tree()
        self.where = {sid: i for i, sid in enumerate(ctx.ids)}
        self.objs = {}            # index -> node object last created for that id
        self.model = Model.empty(n)
        self.key = ()             # history so far: memo key of the model
        self.returned = None
        self.flips = [False] * n  # concrete parity of the data changes
        self.hist = []

    def threading(self):
        return None

    # ---- model bookkeeping ---------------------------------------------------
    def _memo(self, key, mk):
        k = ('model', key)
        hit = self.ctx.memo.get(k)
        if hit is None:
            hit = self.ctx.memo[k] = mk()
        return hit

    def set_model(self, key, mk):
        self.key = key
        self.model = self._memo(key, mk)

    def X(self, sid):
        return [self.ctx.is_id(sid, i) for i in range(self.n)]

    # ---- operations ------------------------------------------------------------
    def do(self, name, *args):
        """Run one API operation on the code; returns the exception or None."""
        self.hist.append((name,) + tuple(str(a) for a in args))
        self.ctx.trace.append(self.hist[-1])
        f = getattr(self, '_do_' + name)
        try:
            with quiet():
                f(*args)
        except Exception as e:
            return e
        return None

    def do_raw(self, label, f):
        """Run a piece of API calls; returns the exception or None."""
        self.ctx.trace.append(label)
        try:
            with quiet():
                self.returned = f()
        except Exception as e:
            return e
        return None

    def step(self, name, *args):
        """Run an operation on the code and on the model.
        Returns (exception or None, refused formula)."""
        exc = self.do(name, *args)
        m0, key0 = self.model, self.key
        nargs = OPS[name]
        key = key0 + ((name,) + tuple(getattr(a, 'name', a) for a in args),)

        def mk():
            vec = [self.X(a) for a in args] + [None] * (2 - nargs)
            return m0.apply(name, vec[0], vec[1])
        self.key = key
        self.model, refused = self._memo(key, mk)
        return exc, refused

    def new_node(self, x):
        node = self.L.TreeNode(x)
        return node

    def _remember(self, x, node):
        if not self.tree.has_node(x):
            self.objs[x] = node

    def _do_add_node(self, x):
        node = self.new_node(x)
        self._remember(x, node)
        self.tree.add_node(node)

    def _do_add_node_parent(self, x, y):
        node = self.new_node(x)
        self._remember(x, node)
        self.tree.add_node(node, y)

    def _do_ctor_parent(self, x, y):
        node = self.L.TreeNode(x, y)
        self._remember(x, node)
        self.tree.add_node(node)

    def _do_ctor_child(self, x, y):
        node = self.new_node(x)
        node.add_child(y)
        self._remember(x, node)
        self.tree.add_node(node)

    def _do_add_parent(self, x, y):
        self.tree.add_parent(x, y)

    def _node(self, x):
        return self.tree.get_node(x) if self.tree.has_node(x) else None

    def _do_add_child(self, x, y):
        node = self._node(x)
        if node is not None:
            node.add_child(y)

    def _do_remove_parent(self, x, y):
        node = self._node(x)
        if node is not None:
            node.remove_parent(y)

    def _do_move(self, x, y):
        self.returned = self.tree.move_node(x, y)

    def _do_set_parent(self, x, y):
        node = self._node(x)
        if node is not None:
            node.set_parent(y)

    def _do_move_root(self, x):
        self.returned = self.tree.move_node(x)

    def _do_no_children(self, x):
        node = self._node(x)
        if node is not None:
            node.set_children_enabled(False)

    def _do_no_parents(self, x):
        node = self._node(x)
        if node is not None:
            node.set_parents_enabled(False)

    def _do_toggle(self, x):
        """the data of a node changes and the application says so"""
        i = self.index(x)
        self.flips[i] = not self.flips[i]
        self.tree.refresh_node(x)

    def _do_delete(self, x):
        self.tree.del_node(x)

    def _do_delete_rec(self, x):
        self.tree.del_node(x, recursive=True)

    def _do_refresh(self, x):
        self.tree.refresh_node(x)

    def _do_refresh_all(self):
        self.tree.refresh_all()

    def _do_readd(self, x):
        """put the very object that was deleted back"""
        node = self.objs.get(x)
        if node is None:
            node = self.objs[x] = self.new_node(x)
        self.tree.add_node(node)

    def _do_readd_parent(self, x, y):
        node = self.objs.get(x)
        if node is None:
            node = self.objs[x] = self.new_node(x)
        self.tree.add_node(node, y)

    # ---- symbolic initial tree -----------------------------------------------
    def build(self, m, orders=('fwd',), tag=''):
        """Nodes 0..m-1 and an arbitrary acyclic relation among them.

        Edge variables e<p><c> for p < c: up to renaming of the (symbolic)
        identifiers this is every DAG on m nodes.  `orders`: in which order
        nodes and relationships are created (symbolic choice)."""
        ctx = self.ctx
        if getattr(ctx, 'shapes', None):
            self.build_shape(ctx.choice('shape', ctx.shapes))
            return
        order = ctx.choice('order' + tag, list(orders))
        idx = list(range(m))
        if order in ('rev', 'revp'):
            idx.reverse()
        ids = ctx.ids
        pairs = [(p, c) for p in range(m) for c in range(p + 1, m)]
        if order in ('rev', 'revp'):
            pairs.reverse()
        with quiet():
            for i in idx:
                node = self.new_node(ids[i])
                self.objs[ids[i]] = node
                self.tree.add_node(node)
            for p, c in pairs:
                if ctx.decide('e%d%d' % (p, c)):
                    if order == 'revp':
                        self.tree.get_node(ids[p]).add_child(ids[c])
                    else:
                        self.tree.add_parent(ids[c], ids[p])

        def mk():
            E = [[(ctx.bool('e%d%d' % (p, c)) if p < c < m else False)
                  for c in range(self.n)] for p in range(self.n)]
            return Model([i < m for i in range(self.n)], E,
                         [[False] * self.n for _ in range(self.n)])
        self.set_model(('build', m), mk)

    def build_shape(self, name):
        """One of the large fixed relations of SHAPES (the requests on it are
        symbolic)."""
        m, edges = SHAPES[name]
        ids = self.ctx.ids
        with quiet():
            for i in range(m):
                node = self.new_node(ids[i])
                self.objs[ids[i]] = node
                self.tree.add_node(node)
            for p, c in edges:
                self.tree.add_parent(ids[c], ids[p])
        have = set(edges)

        def mk():
            E = [[(p, c) in have for c in range(self.n)] for p in range(self.n)]
            return Model([i < m for i in range(self.n)], E,
                         [[False] * self.n for _ in range(self.n)])
        self.set_model(('shape', name), mk)

    # ---- observation ------------------------------------------------------------
    def index(self, sid):
        """universe index of an identifier the library handed back"""
        i = self.where.get(sid)
        return ('?', str(sid)) if i is None else i

    def observe(self):
        t = self.tree
        o = Observed()
        ids = self.ctx.ids
        n = self.n
        o.pres = [bool(t.has_node(ids[i])) for i in range(n)]
        o.parents = [[self.index(p) for p in t.get_node(ids[i]).get_parents()]
                     if o.pres[i] else [] for i in range(n)]
        o.children = [[self.index(c) for c in t.get_node(ids[i]).get_children()]
                      if o.pres[i] else [] for i in range(n)]
        mv = t.get_main_view()
        o.root = [self.index(c) for c in mv.node_all_children()]
        o.all = [self.index(i) for i in mv.get_all_nodes()]
        o.sig = (tuple(o.pres), tuple(map(tuple, o.parents)),
                 tuple(map(tuple, o.children)), tuple(o.root), tuple(o.all))
        return o

    def tree_conds(self, o, model=None, label='tree'):
        """observed tree == model, as formulas"""
        m = model or self.model
        n = self.n
        out = []
        u = m.undef
        for i in range(n):
            out.append(('%s: node %d in tree' % (label, i),
                        Or(u, Iff(o.pres[i], m.pres[i]))))
        for p in range(n):
            for c in range(n):
                out.append(('%s: %d parent of %d' % (label, p, c),
                            Or(u, Iff(p in o.parents[c], m.E[p][c]))))
        return out

    def struct_conds(self, o):
        """agreement of the two ends, root list, no duplicates, no strangers"""
        n = self.n
        out = []
        present = [i for i in range(n) if o.pres[i]]
        out.append(('all nodes listed once', sorted(map(str, o.all)) ==
                    sorted(map(str, present))))
        for i in present:
            for lst, what in ((o.parents[i], 'parents'), (o.children[i], 'children')):
                out.append(('%s of %d listed once' % (what, i),
                            len(set(lst)) == len(lst)))
                out.append(('%s of %d exist' % (what, i),
                            all(k in present for k in lst)))
        for p in present:
            for c in present:
                out.append(('both ends of %d-%d agree' % (p, c),
                            (c in o.children[p]) == (p in o.parents[c])))
        roots = [i for i in present if not o.parents[i]]
        out.append(('root lists exactly the parentless nodes once',
                    sorted(map(str, o.root)) == sorted(map(str, roots))))
        return out

    def acyclic(self, o):
        n = self.n
        R = {i: set(o.children[i]) for i in range(n) if o.pres[i]}
        for k in R:
            for i in R:
                if k in R[i]:
                    R[i] |= R[k]
        return all(i not in R[i] for i in R)

def _ladder(levels):
    return [(2 * k + a, 2 * k + 2 + b) for k in range(levels - 1)
            for a in (0, 1) for b in (0, 1)]


# larger relations than those explored completely: size, relationships
SHAPES = {
    'chain': (12, [(i, i + 1) for i in range(11)]),
    'star': (12, [(0, i) for i in range(1, 12)]),
    'funnel': (12, [(i, 11) for i in range(11)]),
    'ladder': (12, _ladder(6)),
    'tree': (12, [((i - 1) // 2, i) for i in range(1, 12)]),
    'flat': (12, []),
    'waist': (12, [(i, 5) for i in range(5)] + [(5, i) for i in range(6, 12)]),
    'chain7': (7, [(i, i + 1) for i in range(6)]),
    'star7': (7, [(0, i) for i in range(1, 7)]),
    'funnel7': (7, [(i, 6) for i in range(6)]),
    'tree7': (7, [((i - 1) // 2, i) for i in range(1, 7)]),
    'waist7': (7, [(0, 3), (1, 3), (2, 3), (3, 4), (3, 5), (3, 6)]),
    'ladder7': (7, [(0, 1), (0, 2), (1, 3), (2, 3), (3, 4), (3, 5), (4, 6), (5, 6)]),
}
LARGE = ['chain', 'star', 'funnel', 'ladder', 'tree', 'flat', 'waist']
LARGE7 = ['chain7', 'star7', 'funnel7', 'tree7', 'waist7', 'ladder7']


def assume_few(ctx, n, hidden, colours='f'):
    """at most `hidden` nodes have data that filters reject at first"""
    def mk():
        out = []
        for c in colours:
            D = [ctx.bool('%s%d' % (c, i)) for i in range(n)]
            out += [Or(*[D[i] for i in sub])
                    for sub in itertools.combinations(range(n), hidden + 1)]
        return And(*out)
    ctx.assume_global('few%d%s' % (hidden, colours), mk)


def large(run, shapes, few=None, colours='f', n=None):
    """The scenario `run` on large fixed relations instead of any small one."""
    def on_shapes(ctx):
        if few is not None:
            assume_few(ctx, n or SHAPES[shapes[0]][0], few, colours)
        assume_sorted(ctx)
        ctx.shapes = shapes
        try:
            return run(ctx)
        finally:
            ctx.shapes = None
    return on_shapes


def assume_sorted(ctx):
    """identifiers sort as they are numbered, or the other way round: large
    scenarios would drown in their orders (call before any decision)"""
    up = [ctx.less(i, i + 1) for i in range(ctx.n_ids - 1)]
    if up:
        ctx.assume_global('sorted', lambda: Or(And(*up), And(*[
            ctx.less(i + 1, i) for i in range(ctx.n_ids - 1)])))


def assume_forest(ctx, m):
    """at most one parent per node in the initial tree (call first)"""
    ctx.assume_global('forest%d' % m, lambda: And(*[
        Or(Not(ctx.bool('e%d%d' % (p, c))), Not(ctx.bool('e%d%d' % (q, c))))
        for c in range(m) for p in range(c) for q in range(p)]))
