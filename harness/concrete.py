"""Concrete twin of engine.symex.Ctx: replays one solver assignment on plain
Python values (no z3, no proxies)."""


class ReplayViolation(Exception):
    pass


class ReplayVoid(Exception):
    """the assignment does not satisfy an assumption: nothing is shown"""


class ConcreteCtx(object):
    symbolic = False

    def __init__(self, values, n_ids=0, names=None):
        self.values = values
        self.n_ids = n_ids
        codes = [values.get('u%d' % i, 1000 + i) for i in range(n_ids)]
        order = sorted(codes)
        stems = ['n%02d' % order.index(c) for c in codes]
        self.ids = list(names) if names else self._name(stems)
        self._code = dict(zip(codes, self.ids))
        self.memo = {}
        self.trace = []

    def _name(self, stems):
        """Names in the order of the solver's identifiers, whose hashes (under
        the current PYTHONHASHSEED) are ordered like the solver's, too."""
        want = {}
        for i in range(len(stems)):
            v = self.values.get('hash.u%d' % i)
            if v is not None:
                want[i] = v
        if len(want) < 2 and not any(k.startswith('hash.') for k in self.values):
            return stems
        slots = {}
        fixed = [(v, hash(k[5:]) & 7) for k, v in self.values.items()
                 if k.startswith('hash.') and not k[5:].startswith('u')]
        lo = -1
        for i in sorted(want, key=lambda i: want[i]):
            lo += 1
            for v, s in fixed:
                if v < want[i] and lo <= s:
                    lo = s + 1
            slots[i] = min(lo, 7)
        out = []
        for i, stem in enumerate(stems):
            name = stem
            k = 0
            while i in slots and hash(name) & 7 != slots[i] and k < 5000:
                k += 1
                name = '%s-%d' % (stem, k)
            out.append(name)
        return out

    def bool(self, name):
        return bool(self.values.get(name, False))

    def int(self, name):
        return self.values.get(name, 0)

    def arg(self, name):
        code = self.values.get(name)
        if code in self._code:
            return self._code[code]
        return self.ids[0]

    def less(self, i, j):
        return self.ids[i] < self.ids[j]

    def is_id(self, sid, i):
        return sid == self.ids[i]

    def decide(self, key, expr=None):
        if expr is None:
            return self.bool(key)
        return bool(expr)

    def choice(self, name, options):
        n = len(options)
        v = self.values.get(name, 0)
        return options[v] if 0 <= v < n - 1 else options[n - 1]

    def choice_is(self, name, n, k):
        v = self.values.get(name, 0)
        return (v if 0 <= v < n - 1 else n - 1) == k

    def assume_global(self, key, mk):
        if not mk():
            raise ReplayVoid(str(key))

    def assume_arg(self, sid):
        pass

    def assume(self, key, formula):
        if not formula:
            raise ReplayVoid(str(key))

    def check(self, conds, detail=None):
        for label, c in conds:
            if not c:
                self.fail(label, detail)

    def check_memo(self, key, mk, detail=None):
        self.check(mk(), detail)

    def fail(self, label, detail=None):
        d = detail() if callable(detail) else detail
        raise ReplayViolation('%s%s' % (label, ' -- %s' % (d,) if d else ''))

    def cover(self, label):
        pass
