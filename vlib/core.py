"""Abstract interpretation of monomorphic MIR in a provenance-term domain.

Values are hash-consable tuples; a value either has known structure (constants,
aggregates) or is a *provenance term* that says which input operand it comes
from and through which conversions.  Control flow is partitioned on
discriminants / character classes / length intervals (finite facts kept per
partition); loops are summarised by one generic iteration after havocking every
place the body may change (no unrolling, no solver).
"""
import sys
from collections import defaultdict
import charset as CS

sys.setrecursionlimit(20000)

OPT = 'std::option::Option'
RES = 'std::result::Result'
NERR = 'nom::Err'
COW = 'std::borrow::Cow'
UNIT = ('T', ())
SYMTAGS = {'sym', 'fld', 'lv', 'item', 'nth', 'last', 'tok', 'mget', 'op', 'disc', 'chr', 'uninit'}


def some(x):
    return ('A', OPT, 1, (x,))


NONE = ('A', OPT, 0, ())


def ok(x):
    return ('A', RES, 0, (x,))


def err(x):
    return ('A', RES, 1, (x,))


def I(n):
    return ('i', n)


def B(b):
    return ('b', bool(b))


def S(s):
    return ('s', s)


def kref(v):
    return ('ref', ('K', v), ())


def sref(s):
    return kref(S(s))


def op(name, *args, ty=None):
    return ('op', name, tuple(args), ty)


class Undecided(Exception):
    pass


class State:
    __slots__ = ('cells', 'facts')

    def __init__(self, cells=None, facts=None):
        self.cells = cells if cells is not None else {}
        self.facts = facts if facts is not None else {}

    def copy(self):
        return State(dict(self.cells), dict(self.facts))

    def fact(self, k, v):
        s = State(dict(self.cells), dict(self.facts))
        s.facts[k] = v
        return s


def subst(t, m):
    """replace atoms/terms by mapping m"""
    if isinstance(t, tuple):
        if t in m:
            return m[t]
        ch = False
        out = []
        for x in t:
            if isinstance(x, (tuple, str)):
                y = subst(x, m)
                if y is not x:
                    ch = True
                out.append(y)
            else:
                out.append(x)
        return tuple(out) if ch else t
    if isinstance(t, str):
        return m.get(t, t)
    return t


def contains(t, pred):
    if pred(t):
        return True
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple) and contains(x, pred):
                return True
    return False


