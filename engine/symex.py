"""Symbolic execution of the real liblarch code, decided by z3.

The engine runs the *unmodified* Python functions of /repo on symbolic inputs.
A harness draws its inputs from a `Ctx` (identifiers are unbounded symbolic
integers dressed up as `str`, booleans and operation codes are SMT variables);
whenever the code under test has to know something about a symbolic value
(`==`, `hash`, truth value) the engine asks the solver which answers are
possible under the current path condition and explores each possible one.
At the end of every path the harness hands the engine *assertions*: SMT
formulas over the input variables (built by the reference model in
harness/spec.py) or facts about the state the code produced.  An assertion is
discharged iff   path-condition AND NOT assertion   is unsat.

Completeness of the exploration is by construction (every branch whose other
side the solver finds satisfiable is explored) and nothing is sampled.
"""
import os
import signal
import sys
import time

import z3


class Abort(BaseException):
    """Path-steering exceptions: never caught by `except Exception`."""


class SplitPoint(Abort):
    """Splitter mode reached its decision depth."""


class PathTimeout(Abort):
    pass


class Infeasible(Abort):
    """An assumption made the current path infeasible."""


class EngineError(Exception):
    pass


class Violation(Abort):
    def __init__(self, label, detail, values):
        Abort.__init__(self, label)
        self.label = label
        self.detail = detail
        self.values = values


class SymId(str):
    """A symbolic node identifier.

    The text is a placeholder; equality, ordering and hash are decided by the
    solver on the integer variable behind it.
    """

    def __new__(cls, ctx, name, expr, idx=None):
        self = str.__new__(cls, '<%s>' % name)
        self.ctx = ctx
        self.name = name
        self.expr = expr
        self.idx = idx          # index in the universe once resolved
        self.hv = None if idx is None else 17 + 3 * idx
        return self

    def resolve(self):
        if self.idx is None:
            self.idx = self.ctx._resolve(self)
        return self.idx

    def __eq__(self, other):
        if other is self:
            return True
        if isinstance(other, SymId):
            a, b = self.idx, other.idx
            if a is not None and b is not None:
                return a == b
            if b is None and a is None:
                return self.resolve() == other.resolve()
            if a is None:
                return self.ctx._try_id(self, other.idx)
            return self.ctx._try_id(other, self.idx)
        return False

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        h = self.hv
        if h is None:
            h = self.hv = 17 + 3 * self.resolve()
        return h

    def __lt__(self, other):
        if isinstance(other, SymId):
            return self.ctx._id_less(self, other)
        return str.__lt__(self, other)

    def __gt__(self, other):
        if isinstance(other, SymId):
            return self.ctx._id_less(other, self)
        return str.__gt__(self, other)

    def __le__(self, other):
        return not self > other

    def __ge__(self, other):
        return not self < other

    def __str__(self):
        return self

    def strip(self, *args):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise EngineError('symbolic id pickled')


class SymSet(set):
    """A set whose iteration order is unspecified: the engine explores every
    order (Python's depends on randomised string hashes)."""
    ctx = None

    def __iter__(self):
        items = list(set.__iter__(self))
        if len(items) < 2:
            return iter(items)
        ctx = SymSet.ctx
        if ctx is None:
            return iter(items)
        return ctx._permuted(items)

    def _wrap(name):
        f = getattr(set, name)

        def g(self, *args):
            r = f(self, *args)
            return SymSet(r) if type(r) is set else r
        g.__name__ = name
        return g

    for _n in ('__sub__', '__or__', '__and__', '__xor__', '__rsub__', '__ror__',
               '__rand__', '__rxor__', 'difference', 'union', 'intersection',
               'symmetric_difference', 'copy'):
        locals()[_n] = _wrap(_n)
    del _n, _wrap

    __hash__ = None


class Stats(object):
    FIELDS = ('paths', 'queries', 'solver_s', 'assertions', 'discharged',
              'branches', 'infeasible', 'python_facts')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.max_depth = 0
        self.covers = {}
        self.samples = []

    def merge(self, o):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + getattr(o, f))
        self.max_depth = max(self.max_depth, o.max_depth)
        for k, v in o.covers.items():
            self.covers[k] = self.covers.get(k, 0) + v
        if len(self.samples) < 4:
            self.samples += o.samples[:4 - len(self.samples)]


class Ctx(object):
    """One symbolic exploration (all paths of one harness)."""
    symbolic = True

    def __init__(self, harness, n_ids=0, path_timeout=20.0, sym_sets=False):
        self.harness = harness
        self.sym_sets = sym_sets
        self.path_timeout = path_timeout
        self.solver = z3.Solver()
        self.solver.set('random_seed', int(os.environ.get('VERIF_SEED', '1') or 1))
        self.stats = Stats()
        self.vars = {}           # name -> z3 var
        self.memo = {}           # survives across paths
        self.stack = []          # [key, chosen, remaining alternatives, expr of chosen]
        self.forced = []
        self.split_depth = None
        self.n_ids = n_ids
        self.id_vars = [self.int('u%d' % i) for i in range(n_ids)]
        if n_ids > 1:
            self.solver.add(z3.Distinct(*self.id_vars))
        self._id_names = ['u%d' % i for i in range(n_ids)]
        self.model = None
        self._reset_path()

    # ---- variables ---------------------------------------------------------
    def _reset_path(self):
        self.pos = 0
        self.decided = {}
        self.assumed = 0
        self.ids = [SymId(self, self._id_names[i], self.id_vars[i], i)
                    for i in range(self.n_ids)]
        self.trace = []
        self.path_covers = set()
        SymSet.ctx = self if self.sym_sets else None

    def int(self, name):
        v = self.vars.get(name)
        if v is None:
            v = self.vars[name] = z3.Int(name)
        return v

    def bool(self, name):
        """A free Boolean input (an SMT variable, not yet decided)."""
        v = self.vars.get(name)
        if v is None:
            v = self.vars[name] = z3.Bool(name)
        return v

    def arg(self, name):
        """A free identifier argument ranging over the universe of ids."""
        return SymId(self, name, self.int(name))

    def is_id(self, sid, i):
        """formula: sid denotes universe element i"""
        if sid.expr is self.id_vars[i]:
            return True
        if sid.name in self._id_names:
            return False
        return self._atom('%s=u%d' % (sid.name, i),
                          lambda: sid.expr == self.id_vars[i])

    def _atom(self, key, mk):
        e = self.memo.get(('atom', key))
        if e is None:
            e = self.memo[('atom', key)] = mk()
        return e

    # ---- decisions ---------------------------------------------------------
    def _check(self, *extra):
        t = time.perf_counter()
        r = self.solver.check(*extra)
        self.stats.solver_s += time.perf_counter() - t
        self.stats.queries += 1
        if r == z3.unknown:
            raise EngineError('solver answered unknown: %s' % self.solver.reason_unknown())
        return r == z3.sat

    def _decide(self, key, options):
        """Take one of `options` [(value, expr)], exploring all feasible ones.

        The expressions are exhaustive and mutually exclusive."""
        if key in self.decided:
            return self.decided[key]
        pos = self.pos
        if pos < len(self.stack):
            ent = self.stack[pos]
            if ent[0] != key:
                raise EngineError('non-deterministic replay: %r expected %r'
                                  % (key, ent[0]))
            val = ent[1]
        else:
            if self.split_depth is not None and pos >= self.split_depth:
                raise SplitPoint()
            if pos < len(self.forced):
                fkey, fval = self.forced[pos]
                if fkey != key:
                    raise EngineError('non-deterministic prefix: %r expected %r'
                                      % (key, fkey))
                feas = [o for o in options if o[0] == fval]
            else:
                self.stats.branches += 1
                feas = []
                n = len(options)
                for k, (v, e) in enumerate(options):
                    if k == n - 1 and not feas:
                        feas.append((v, e))   # pc is sat, options exhaustive
                    elif self._check(e):
                        feas.append((v, e))
            v, e = feas[0]
            self.solver.push()
            self.solver.add(e)
            self.stack.append([key, v, feas[1:], e])
            val = v
        self.pos = pos + 1
        self.decided[key] = val
        return val

    def decide(self, name_or_key, expr=None):
        """Concretise a Boolean input/formula on this path (fork)."""
        if expr is None:
            expr = self.bool(name_or_key)
        opts = self.memo.get(('b', name_or_key))
        if opts is None:
            opts = self.memo[('b', name_or_key)] = [
                (True, expr), (False, z3.Not(expr))]
        return self._decide(name_or_key, opts)

    def choice(self, name, options):
        """A free finite choice (operation code, schedule step ...)."""
        n = len(options)
        if n == 1:
            return options[0]
        opts = self.memo.get(('c', name, n))
        if opts is None:
            v = self.int(name)
            # the last option is "everything else", so options are exhaustive
            opts = [(k, v == k) for k in range(n - 1)]
            opts.append((n - 1, z3.And(*[v != k for k in range(n - 1)])))
            self.memo[('c', name, n)] = opts
        return options[self._decide(name, opts)]

    def choice_is(self, name, n, k):
        """formula: the choice `name` with n options takes option k"""
        v = self.int(name)
        if n == 1:
            return True
        if k < n - 1:
            return v == k
        return z3.And(*[v != j for j in range(n - 1)])

    def _resolve(self, sid):
        key = sid.name
        n = self.n_ids
        opts = self.memo.get(('id', key))
        if opts is None:
            opts = [(i, self.is_id(sid, i)) for i in range(n)]
            self.memo[('id', key)] = opts
        # earlier disequalities decided by _try_id are in the path condition;
        # domain restriction (sid is one of the universe) is asserted once
        rest = [o for o in opts
                if self.decided.get('%s=u%d' % (key, o[0])) is not False]
        if len(rest) == 1:
            return rest[0][0]
        return self._decide('id:' + key, rest)

    def _try_id(self, sid, i):
        key = '%s=u%d' % (sid.name, i)
        opts = self.memo.get(('b', key))
        if opts is None:
            e = self.is_id(sid, i)
            opts = self.memo[('b', key)] = [(True, e), (False, z3.Not(e))]
        r = self._decide(key, opts)
        if r:
            sid.idx = i
        return r

    def _slot(self, x):
        return 'hash.u%d' % x.resolve() if isinstance(x, SymId) else 'hash.%s' % x

    def _permuted(self, items):
        """Iteration follows a symbolic total order on the elements (the order
        of their hashes), decided pair by pair as needed."""
        out = []
        for x in sorted(items, key=self._slot):
            a = self._slot(x)
            k = len(out)
            while k > 0:
                b = self._slot(out[k - 1])
                if a < b:
                    less = self.decide('%s<%s' % (a, b), self._slot_less(a, b))
                else:
                    less = not self.decide('%s<%s' % (b, a), self._slot_less(b, a))
                if not less:
                    break
                k -= 1
            out.insert(k, x)
        return iter(out)

    def _slot_less(self, a, b):
        return self._atom('%s<%s' % (a, b), lambda: self.int(a) < self.int(b))

    def _id_less(self, a, b):
        if a == b:
            return False
        i, j = a.resolve(), b.resolve()
        if i > j:
            return not self.decide('u%d<u%d' % (j, i),
                                   self.id_vars[j] < self.id_vars[i])
        return self.decide('u%d<u%d' % (i, j), self.id_vars[i] < self.id_vars[j])

    def less(self, i, j):
        """formula: identifier i of the universe sorts before identifier j"""
        return self._atom('u%d<u%d' % (i, j),
                          lambda: self.id_vars[i] < self.id_vars[j])

    # ---- assumptions and assertions ------------------------------------------
    def assume_global(self, key, mk):
        """Assert an input constraint once, before any decision (mk -> formula)."""
        if ('ga', key) in self.memo:
            return
        if self.stack:
            raise EngineError('global assumption %s after a decision' % (key,))
        self.memo[('ga', key)] = True
        self.solver.add(mk())
        if not self._check():
            raise EngineError('assumption %s is unsatisfiable: vacuous' % (key,))

    def assume_arg(self, sid):
        """sid is one of the universe"""
        self.assume_global(('dom', sid.name), lambda: z3.Or(
            *[self.is_id(sid, i) for i in range(self.n_ids)]))

    def assume(self, key, formula):
        """A path assumption over the inputs. Decided once per path; paths on
        which it is impossible end here."""
        if formula is True:
            return
        if formula is False:
            raise Infeasible()
        pos = self.pos
        if key in self.decided:
            return
        if pos < len(self.stack):
            ent = self.stack[pos]
            if ent[0] != key:
                raise EngineError('non-deterministic replay: %r expected %r'
                                  % (key, ent[0]))
        else:
            if not self._check(formula):
                self.stats.infeasible += 1
                raise Infeasible()
            self.solver.push()
            self.solver.add(formula)
            self.stack.append([key, True, [], formula])
        self.pos = pos + 1
        self.decided[key] = True

    def check(self, conds, detail=None):
        """conds: list of (label, formula-or-bool). All must hold on every
        input satisfying the path condition."""
        if self.pos < len(self.stack):
            # Still inside a prefix already explored: the same assertion was
            # discharged under the weaker path condition of this prefix.
            return
        forms = []
        for label, c in conds:
            if c is True:
                self.stats.python_facts += 1
                continue
            if c is False:
                self.fail(label, detail)
            forms.append((label, c))
        if not forms:
            return
        self.stats.assertions += len(forms)
        neg = z3.Not(z3.And(*[c for _, c in forms])) if len(forms) > 1 \
            else z3.Not(forms[0][1])
        if self._check(neg):
            m = self.solver.model()
            label = next((l for l, c in forms
                          if z3.is_false(m.eval(c, model_completion=True))),
                         forms[0][0])
            raise Violation(label, self._detail(detail), self._values(m))
        self.stats.discharged += len(forms)

    def check_memo(self, key, mk, detail=None):
        """Like check(), with the conditions built once per key (they are
        functions of the input variables and of the observation in the key)."""
        if self.pos < len(self.stack):
            return
        hit = self.memo.get(('chk', key))
        if hit is None:
            conds = mk()
            bad = next((l for l, c in conds if c is False), None)
            facts = sum(1 for l, c in conds if c is True)
            forms = [(l, c) for l, c in conds if not isinstance(c, bool)]
            neg = z3.Or(*[z3.Not(c) for _, c in forms]) if forms else None
            hit = self.memo[('chk', key)] = (bad, facts, forms, neg)
        bad, facts, forms, neg = hit
        self.stats.python_facts += facts
        if bad is not None:
            self.fail(bad, detail)
        if neg is None:
            return
        self.stats.assertions += len(forms)
        if self._check(neg):
            m = self.solver.model()
            label = next((l for l, c in forms
                          if z3.is_false(m.eval(c, model_completion=True))),
                         forms[0][0])
            raise Violation(label, self._detail(detail), self._values(m))
        self.stats.discharged += len(forms)

    def fail(self, label, detail=None):
        if not self._check():
            raise EngineError('path condition unsat')
        raise Violation(label, self._detail(detail), self._values(self.solver.model()))

    def _detail(self, detail):
        try:
            return str(detail() if callable(detail) else detail)[:2000]
        except Exception as e:
            return 'detail failed: %r' % (e,)

    def cover(self, label):
        """Vacuity guard: this label must be reached on some path."""
        self.path_covers.add(label)

    def _values(self, m):
        out = {}
        for name, v in self.vars.items():
            val = m.eval(v, model_completion=True)
            if z3.is_bool(v):
                out[name] = bool(z3.is_true(val))
            else:
                out[name] = val.as_long()
        return out

    # ---- exploration ---------------------------------------------------------
    def _alarm(self, *a):
        raise PathTimeout()

    def explore(self, prefix=(), split_depth=None, deadline=None):
        """Explore every path whose first decisions are `prefix` (a list of
        (key, value)).  With a split depth, paths are cut at that many
        decisions and their prefixes returned instead of being continued.
        Returns (violation or None, list of prefixes)."""
        self.split_depth = split_depth
        splits = []
        while self.stack:
            self.solver.pop()
            self.stack.pop()
        self.forced = list(prefix)
        while True:
            self._reset_path()
            v = self._run_one(splits)
            if v is not None:
                return v, splits
            if deadline and time.time() > deadline:
                raise EngineError('exploration budget exhausted')
            if not self._backtrack():
                return None, splits

    def _run_one(self, splits):
        signal.signal(signal.SIGALRM, self._alarm)
        signal.setitimer(signal.ITIMER_REAL, self.path_timeout)
        try:
            try:
                self.harness(self)
            except SplitPoint:
                splits.append([(e[0], e[1]) for e in self.stack])
                return None
            except Infeasible:
                return None
            except Violation as v:
                return v
            except PathTimeout:
                signal.setitimer(signal.ITIMER_REAL, 0)
                try:
                    self.fail('the operation does not terminate', None)
                except Violation as v:
                    return v
            except EngineError:
                raise
            except Exception as e:
                import traceback
                tb = traceback.format_exc()
                signal.setitimer(signal.ITIMER_REAL, 0)
                try:
                    self.fail('unexpected %s: %s' % (type(e).__name__, e), tb)
                except Violation as v:
                    return v
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        self.stats.paths += 1
        self.stats.max_depth = max(self.stats.max_depth, self.pos)
        for c in self.path_covers:
            self.stats.covers[c] = self.stats.covers.get(c, 0) + 1
        if len(self.stats.samples) < 2 and self.stats.paths % 7 == 1:
            self.stats.samples.append({
                'path_condition': ['%s=%s' % (e[0], e[1]) for e in self.stack],
                'trace': [str(t) for t in self.trace][:40]})
        return None

    def _backtrack(self):
        while self.stack:
            ent = self.stack[-1]
            if ent[2]:
                v, e = ent[2].pop(0)
                self.solver.pop()
                self.solver.push()
                self.solver.add(e)
                ent[1], ent[3] = v, e
                return True
            self.solver.pop()
            self.stack.pop()
        return False
