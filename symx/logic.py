"""Boolean helpers that work on solver terms and on plain booleans alike."""
import z3
from .engine import SymBool, SymInt, term


def _sym(xs):
    return any(type(x) is SymBool for x in xs)


def conj(xs):
    xs = list(xs)
    if _sym(xs):
        return SymBool(z3.And([term(x) for x in xs]))
    return all(xs)


def disj(xs):
    xs = list(xs)
    if _sym(xs):
        return SymBool(z3.Or([term(x) for x in xs]))
    return any(xs)


def neg(x):
    return SymBool(z3.Not(x.t)) if type(x) is SymBool else not x


def imp(a, b):
    return disj([neg(a), b])


def ite(c, a, b):
    if type(c) is SymBool:
        t = lambda v: v.t if isinstance(v, SymInt) else z3.IntVal(int(v))
        return SymInt(z3.If(c.t, t(a), t(b)))
    return a if c else b
