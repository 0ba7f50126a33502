"""Reference model of the tree, as formulas over the symbolic inputs.

Everything is indexed by the universe of identifiers 0..n-1:
  pres[i]      node i is in the tree
  E[p][c]      p is a parent of c (both in the tree)
  W[p][c]      a relationship p -> c was requested while one end was missing
               and waits for it ("late" relationship)
A model is immutable; every operation returns (new model, refused) where
`refused` is the formula under which the library must raise an error and
leave everything as it was.
"""
from .logic import And, Or, Not, Iff, Ite, Implies, closure


def pick(X, vec):
    return Or(*[And(X[i], vec[i]) for i in range(len(vec))])


class Model(object):
    def __init__(self, pres, E, W):
        self.pres = pres
        self.E = E
        self.W = W
        self.n = len(pres)
        self._R = None
        # formula: relationships requested before their nodes existed
        # contradict each other (would close a cycle); which of them wins is
        # unspecified, so nothing is claimed about the relation then
        self.undef = False
        self._late = False

    @staticmethod
    def empty(n):
        return Model([False] * n, [[False] * n for _ in range(n)],
                     [[False] * n for _ in range(n)])

    @property
    def R(self):
        if self._R is None:
            self._R = closure(self.E)
        return self._R

    def anc_or_self(self, a, d):
        """formula: node a (index) is d (index) or one of its ancestors"""
        return True if a == d else self.R[a][d]

    def root(self, c):
        return And(self.pres[c], *[Not(self.E[p][c]) for p in range(self.n)])

    def _ite(self, cond, other):
        """self where cond, other elsewhere"""
        n = self.n
        return Model([Ite(cond, self.pres[i], other.pres[i]) for i in range(n)],
                     [[Ite(cond, self.E[i][j], other.E[i][j]) for j in range(n)]
                      for i in range(n)],
                     [[Ite(cond, self.W[i][j], other.W[i][j]) for j in range(n)]
                      for i in range(n)])

    # ---- operations ----------------------------------------------------------
    def would_cycle(self, P, C):
        """making P the parent of C closes a cycle (P != C, both present)"""
        n = self.n
        return Or(*[And(P[p], C[c], self.R[c][p])
                    for p in range(n) for c in range(n) if p != c])

    def relate(self, P, C):
        """P becomes a parent of C; both ends symbolic; `late` when one end is
        missing; nothing when P is C; refused when it would close a cycle."""
        n = self.n
        E = [list(r) for r in self.E]
        W = [list(r) for r in self.W]
        cyc = And(pick(P, self.pres), pick(C, self.pres), self.would_cycle(P, C))
        for p in range(n):
            for c in range(n):
                if p == c:
                    continue
                here = And(P[p], C[c])
                both = And(self.pres[p], self.pres[c])
                E[p][c] = Or(self.E[p][c], And(here, both, Not(self.R[c][p])))
                W[p][c] = Ite(here, Not(both), self.W[p][c])
        m = Model(self.pres, E, W)
        return m, cyc

    def unrelate(self, P, C):
        n = self.n
        E = [[And(self.E[p][c], Not(And(P[p], C[c]))) for c in range(n)]
             for p in range(n)]
        # a parent the node still waits for is not awaited any more
        W = [[And(self.W[p][c], Not(And(P[p], C[c], self.pres[c])))
              for c in range(n)] for p in range(n)]
        return Model(self.pres, E, W), False

    def to_root(self, C):
        """C loses all its parents, those it waits for included"""
        n = self.n
        E = [[And(self.E[p][c], Not(C[c])) for c in range(n)] for p in range(n)]
        W = [[And(self.W[p][c], Not(And(C[c], self.pres[c]))) for c in range(n)]
             for p in range(n)]
        return Model(self.pres, E, W), False

    def move(self, C, P):
        """P becomes the only parent of C"""
        n = self.n
        cyc = And(pick(P, self.pres), pick(C, self.pres), self.would_cycle(P, C))
        same = Or(*[And(P[i], C[i]) for i in range(n)])
        skip = Or(cyc, same, Not(pick(C, self.pres)))
        m, _ = self.to_root(C)
        m, _ = m.relate(P, C)
        return self._ite(skip, m), cyc

    def delete(self, X):
        n = self.n
        gone = [And(X[i], self.pres[i]) for i in range(n)]
        return self._without(gone), False

    def delete_recursive(self, X):
        n = self.n
        gone = [Or(*[And(X[a], self.pres[a], self.anc_or_self(a, d))
                     for a in range(n)]) for d in range(n)]
        return self._without([And(self.pres[d], gone[d]) for d in range(n)]), False

    def _without(self, gone):
        n = self.n
        keep = [Not(g) for g in gone]
        return Model([And(self.pres[i], keep[i]) for i in range(n)],
                     [[And(self.E[i][j], keep[i], keep[j]) for j in range(n)]
                      for i in range(n)],
                     [[And(self.W[i][j], keep[i], keep[j]) for j in range(n)]
                      for i in range(n)])

    def add(self, X, P=None):
        """Node X enters the tree (nothing if its id is taken); waiting
        relationships whose two ends are now there are established; then P, if
        given, becomes a parent (late if missing).  Only meaningful when the
        waiting relationships close no cycle."""
        n = self.n
        known = pick(X, self.pres)
        pres = [Or(self.pres[i], X[i]) for i in range(n)]
        E = [list(r) for r in self.E]
        W = [list(r) for r in self.W]
        for p in range(n):
            for c in range(n):
                if p == c:
                    continue
                now = And(Or(X[p], X[c]), pres[p], pres[c], self.W[p][c])
                E[p][c] = Or(E[p][c], now)
                W[p][c] = And(W[p][c], Not(now))
        m = Model(pres, E, W)
        late = And(Not(known), Or(*[m.R[i][i] for i in range(n)]))
        refused = False
        if P is not None:
            same = Or(*[And(X[i], P[i]) for i in range(n)])
            m2, cyc = m.relate(P, X)
            refused = And(Not(known), Or(same, cyc))
            m = m2
        m = self._ite(Or(known, refused), m)
        m._late = late
        return m, refused

    def apply(self, name, X, Y):
        new, refused = getattr(self, '_op_' + name)(X, Y)
        late = new._late
        if refused is not False:
            new = self._ite(refused, new)
        elif new is self:
            new = Model(self.pres, self.E, self.W)
        new.undef = Or(self.undef, late)
        return new, refused

    # ---- the operations of the public API ----------------------------------------
    def _op_add_node(self, X, Y):
        return self.add(X)

    def _op_add_node_parent(self, X, Y):
        return self.add(X, Y)

    def _op_ctor_parent(self, X, Y):
        """TreeNode(x, y) then add_node"""
        return self._with_waiting(Y, X).add(X)[0]._guard_known(self, X), False

    def _op_ctor_child(self, X, Y):
        """node = TreeNode(x); node.add_child(y); add_node(node)"""
        return self._with_waiting(X, Y).add(X)[0]._guard_known(self, X), False

    def _with_waiting(self, P, C):
        n = self.n
        W = [[(Or(self.W[p][c], And(P[p], C[c])) if p != c else False)
              for c in range(n)] for p in range(n)]
        return Model(self.pres, self.E, W)

    def _guard_known(self, before, X):
        m = before._ite(pick(X, before.pres), self)
        m._late = And(Not(pick(X, before.pres)), self._late)
        return m

    def _op_add_parent(self, X, Y):
        m, cyc = self.relate(Y, X)
        absent = Not(pick(X, self.pres))
        return self._ite(absent, m), cyc

    def _op_add_child(self, X, Y):
        m, cyc = self.relate(X, Y)
        absent = Not(pick(X, self.pres))
        return self._ite(absent, m), cyc

    def _op_remove_parent(self, X, Y):
        return self.unrelate(Y, X)

    def _op_move(self, X, Y):
        return self.move(X, Y)

    _op_set_parent = _op_move

    def _op_move_root(self, X, Y):
        return self.to_root(X)

    def _op_delete(self, X, Y):
        return self.delete(X)

    def _op_delete_rec(self, X, Y):
        return self.delete_recursive(X)

    def _op_refresh(self, X, Y):
        return self, False

    def _op_refresh_all(self, X, Y):
        return self, False

    _op_toggle = _op_refresh
    _op_batch = _op_refresh

    def _op_no_parents(self, X, Y):
        return self.to_root(X)

    def _op_no_children(self, X, Y):
        n = self.n
        E = [[And(self.E[p][c], Not(X[p])) for c in range(n)] for p in range(n)]
        return Model(self.pres, E, self.W), False

    def _op_readd(self, X, Y):
        return self.add(X)

    def _op_readd_parent(self, X, Y):
        return self.add(X, Y)
