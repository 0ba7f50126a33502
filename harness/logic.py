"""Formula constructors that fold Python booleans.

The reference model is written once with these: on symbolic inputs it builds
SMT formulas, on the concrete inputs of a replay it computes plain booleans
(and z3 is then never imported).
"""
import sys


def _z3():
    import z3
    return z3


def And(*xs):
    out = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return _z3().And(*out)


def Or(*xs):
    out = []
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return _z3().Or(*out)


def Not(x):
    if x is True:
        return False
    if x is False:
        return True
    return _z3().Not(x)


def Iff(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False:
        return Not(b)
    if b is False:
        return Not(a)
    return a == b


def Implies(a, b):
    return Or(Not(a), b)


def Ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if isinstance(a, bool) or isinstance(b, bool):
        if a is True:
            return Or(c, b)
        if a is False:
            return And(Not(c), b)
        if b is True:
            return Or(Not(c), a)
        return And(c, a)
    return _z3().If(c, a, b)


def Count(xs):
    """number of true formulas (an integer term)"""
    const = sum(1 for x in xs if x is True)
    syms = [x for x in xs if not isinstance(x, bool)]
    if not syms:
        return const
    z = _z3()
    return z.Sum([z.If(x, 1, 0) for x in syms]) + const


def Eq(a, b):
    """integer equality"""
    return a == b


def closure(E):
    """R[i][j]: there is a non-empty path i -> ... -> j along E."""
    n = len(E)
    R = [list(row) for row in E]
    for k in range(n):
        R = [[Or(R[i][j], And(R[i][k], R[k][j])) for j in range(n)]
             for i in range(n)]
    return R
