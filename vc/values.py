"""Value domain of the symbolic executor.

ints    : python int (canonical, unsigned, mod 2^w) | z3 BitVec (mode bv) |
          z3 Int with *signed* reading (mode int) | Ptr | Lin
i1      : python int 0/1 | z3 Bool
doubles : mode real: Fraction | z3 Real | Special     mode fp: float | z3 FP
"""
from fractions import Fraction
import z3


class Unsupported(Exception):
    pass


class Special:
    """+inf, -inf, nan in real mode."""
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k

    def __repr__(self):
        return self.k


INF, NINF, NAN = Special("inf"), Special("-inf"), Special("nan")


class Undef:
    __slots__ = ()

    def __repr__(self):
        return "undef"


UNDEF = Undef()


def is_sym(v):
    return isinstance(v, z3.ExprRef)


class Lin:
    """c + sum coef*expr  (64-bit offset arithmetic, kept linear)."""
    __slots__ = ("c", "t")

    def __init__(self, c, t):
        self.c = c
        self.t = t  # tuple of (coef, expr)

    @staticmethod
    def make(c, terms):
        d = {}
        for k, e in terms:
            i = e.get_id()
            if i in d:
                d[i] = (d[i][0] + k, e)
            else:
                d[i] = (k, e)
        t = tuple((k, e) for i, (k, e) in sorted(d.items()) if k != 0)
        if not t:
            return c
        return Lin(c, t)

    def __repr__(self):
        return "Lin(%d + %s)" % (self.c, " + ".join("%d*%s" % (k, e) for k, e in self.t))


def lin_parts(x):
    if isinstance(x, Lin):
        return x.c, x.t
    return x, ()


def lin_add(a, b, sb=1):
    ca, ta = lin_parts(a)
    cb, tb = lin_parts(b)
    if not ta and not tb:
        return ca + sb * cb
    return Lin.make(ca + sb * cb, list(ta) + [(sb * k, e) for k, e in tb])


def lin_scale(a, k):
    c, t = lin_parts(a)
    if not t:
        return c * k
    return Lin.make(c * k, [(k * q, e) for q, e in t])


class Ptr:
    __slots__ = ("o", "off")

    def __init__(self, o, off=0):
        self.o = o
        self.off = off

    def __repr__(self):
        return "Ptr(%s,%s)" % (self.o, self.off)


class FnPtr:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "Fn(%s)" % self.name


class FloatBits:
    """A double sitting in an integer slot (copied, never computed with)."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


def signed(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def unsigned(v, w):
    return v & ((1 << w) - 1)


class Cell:
    __slots__ = ("sz", "v")

    def __init__(self, sz, v):
        self.sz = sz
        self.v = v


class SymArr:
    """Array object of symbolic length.  base(j) gives the initial contents of
    element j as cells; writes are kept as a log of point and range layers."""
    __slots__ = ("stride", "n", "base", "log")

    def __init__(self, stride, n, base, log=()):
        self.stride = stride
        self.n = n
        self.base = base
        self.log = log


class Obj:
    __slots__ = ("size", "cells", "owner", "arr", "kind", "name", "zero", "freed", "lazy")

    def __init__(self, size, kind, name="", owner=None, zero=False):
        self.size = size
        self.cells = {}
        self.owner = owner
        self.arr = None
        self.kind = kind
        self.name = name
        self.zero = zero
        self.freed = False
        self.lazy = None

    def clone(self, owner):
        o = Obj(self.size, self.kind, self.name, owner, self.zero)
        o.cells = dict(self.cells)
        o.arr = self.arr
        o.freed = self.freed
        o.lazy = self.lazy
        return o


class State:
    __slots__ = ("pc", "pcids", "mem", "sid", "bounds", "guards", "tag", "facts")
    _n = 0

    def __init__(self):
        State._n += 1
        self.sid = State._n
        self.pc = ()          # tuple of z3 Bool
        self.pcids = frozenset()
        self.mem = {}
        self.bounds = {}
        self.guards = {}
        self.tag = None
        self.facts = ()

    def fork(self):
        s = State.__new__(State)
        State._n += 1
        s.sid = State._n
        s.pc = self.pc
        s.pcids = self.pcids
        s.mem = dict(self.mem)
        s.bounds = dict(self.bounds)
        s.guards = self.guards
        s.tag = self.tag
        s.facts = self.facts
        # self must also stop owning its objects
        State._n += 1
        self.sid = State._n
        return s

    def add(self, c):
        if z3.is_true(c):
            return
        i = c.get_id()
        if i in self.pcids:
            return
        if z3.is_and(c):
            for k in c.children():
                self.add(k)
            return
        self.pc = self.pc + (c,)
        self.pcids = self.pcids | {i}
