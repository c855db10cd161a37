"""Symbolic executor / verification condition generator over LLVM IR."""
import json
import re
import time
from fractions import Fraction
import math
import z3
from .values import *


class Fork(Exception):
    def __init__(self, cond):
        self.cond = cond


class PathEnd(Exception):
    """This path stops (infeasible or cut by an assumption)."""


class Throw(Exception):
    def __init__(self, ti, obj=0):
        self.ti = ti
        self.obj = obj


class Outcome:
    __slots__ = ("st", "kind", "v")

    def __init__(self, st, kind, v):
        self.st, self.kind, self.v = st, kind, v


class Obligation:
    __slots__ = ("label", "pc", "goal", "loc", "kind", "status", "backend", "time", "model", "exact", "inputs")

    def __init__(self, label, pc, goal, loc, kind):
        self.label, self.pc, self.goal, self.loc, self.kind = label, pc, goal, loc, kind
        self.status = None
        self.backend = ""
        self.time = 0.0
        self.model = None
        self.exact = True


class Frame:
    __slots__ = ("fn", "env", "args", "allocas", "counts")

    def __init__(self, fn, args):
        self.fn = fn
        self.env = {}
        self.args = args
        self.counts = {}

    def fork(self):
        f = Frame(self.fn, self.args)
        f.env = dict(self.env)
        f.counts = dict(self.counts)
        return f


FCMP = {
    "oeq": ("eq", False), "ogt": ("gt", False), "oge": ("ge", False), "olt": ("lt", False),
    "ole": ("le", False), "one": ("ne", False), "ueq": ("eq", True), "ugt": ("gt", True),
    "uge": ("ge", True), "ult": ("lt", True), "ule": ("le", True), "une": ("ne", True),
}


class Exec:
    def __init__(self, module):
        self.m = module
        self.T = module["types"]
        self.F = module["functions"]
        self.G = module["globals"]
        self.aliases = module.get("aliases", {})
        self.intmode = False
        self.fp = False
        self.obls = []
        self.inputs = []      # (name, kind, expr)
        self.inames = {}
        self.nfresh = 0
        self.base = {}        # shared initial objects
        self.gobj = {}        # global name -> obj id
        self.nobj = 1
        self.objid = {}
        self.symrange = {}    # expr id -> (lo,hi,expr)
        self.defs = {}        # definitional symbols
        self.sqrt_rel = {}
        self.keep = []        # keep z3 refs alive (ids are used as keys)
        self.boolof = {}
        self.fnptrs = {}
        self.solver = None
        self.sstack = []
        self.stats = {"instr": 0, "paths": 0, "checks": 0, "checktime": 0.0, "forks": 0, "merged": 0}
        self.covers = {}
        self.executed = {}    # function -> times executed
        self.modelled = {}    # name -> times
        self.feas_timeout = 400
        self.unroll_sym = 80
        self.unroll_max = 100000
        self.cfg = {"merge": "1", "ub": "1", "strings": "0", "loops": "unroll", "minmax": "fork", "maxpaths": "20000"}
        self.curloc = ""
        self.callstack = []
        self.trusted = set()
        self.deadline = None
        self.trivial = 0
        self.lemma_ids = set()
        self.nlmemo = {}
        self.lsolver = None
        self.opaque_ids = set()   # terms named by lemmas
        self.modelcache = {}
        from . import models
        self.models = models.Models(self)
        self.inductive = None

    # ------------------------------------------------------------------ misc
    def config(self, s):
        for kv in s.split(","):
            kv = kv.strip()
            if not kv:
                continue
            k, _, v = kv.partition("=")
            if k == "ints":
                self.intmode = v == "int"
            elif k == "doubles":
                self.fp = v == "fp"
            else:
                self.cfg[k] = v or "1"
                if k == "unroll":
                    self.unroll_sym = int(v)
                if k == "feas":
                    self.feas_timeout = int(v)

    def fresh(self, name):
        self.nfresh += 1
        return "%s!%d" % (name, self.nfresh)

    def hold(self, e):
        self.keep.append(e)
        return e

    def new_obj(self, st, size, kind, name="", zero=False):
        self.nobj += 1
        o = Obj(size, kind, name, st.sid, zero)
        st.mem[self.nobj] = o
        return self.nobj

    def robj(self, st, oid):
        o = st.mem.get(oid)
        if o is None:
            o = self.base[oid]
        return o

    def wobj(self, st, oid):
        o = st.mem.get(oid)
        if o is None:
            o = self.base[oid].clone(st.sid)
            st.mem[oid] = o
        elif o.owner != st.sid:
            o = o.clone(st.sid)
            st.mem[oid] = o
        return o

    # --------------------------------------------------------- fresh symbols
    def sym_int(self, name, w, lo=None, hi=None):
        if w == 1:
            return z3.Bool(name)
        if self.intmode:
            e = z3.Int(name)
            self.hold(e)
            self.symrange[e.get_id()] = (-(1 << (w - 1)) if lo is None else lo,
                                         (1 << (w - 1)) - 1 if hi is None else hi, e)
            return e
        return self.hold(z3.BitVec(name, w))

    def sym_dbl(self, name):
        if self.fp:
            return self.hold(z3.FP(name, z3.Float64()))
        return self.hold(z3.Real(name))

    def input_name(self, name):
        k = self.inames.get(name, 0)
        return name if k == 0 else "%s#%d" % (name, k)

    # ------------------------------------------------------------ feasibility
    def _sync(self, pc):
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver.set("timeout", self.feas_timeout)
            self.sstack = []
        n = 0
        while n < len(self.sstack) and n < len(pc) and self.sstack[n] is pc[n]:
            n += 1
        if len(self.sstack) > n:
            self.solver.pop(len(self.sstack) - n)
            del self.sstack[n:]
        for c in pc[n:]:
            self.solver.push()
            self.solver.add(c)
            self.sstack.append(c)

    def feasible(self, st, extra=None, strict=False):
        """True if pc & extra may be satisfiable (unknown counts as feasible)."""
        t = time.time()
        if self.deadline and t > self.deadline:
            raise Unsupported("time budget for path exploration exhausted")
        if extra is not None and self.linearly_refuted(st.pc, extra):
            self.stats["checks"] += 1
            return False
        self._sync(st.pc)
        self.solver.set("timeout", self.feas_timeout)
        if self.many_nonlinear(st.pc):
            r = self.check_apart(st.pc, extra)
        else:
            r = self.solver.check(extra) if extra is not None else self.solver.check()
        self.stats["checks"] += 1
        self.stats["checktime"] += time.time() - t
        if r == z3.unknown and strict:
            return None
        return r != z3.unsat

    def is_nonlinear(self, c):
        v = self.nlmemo.get(c.get_id())
        if v is None:
            from .prove import sorts
            v = self.nlmemo[self.hold(c).get_id()] = bool(sorts([c]) & {"nl"}) and "Real" in sorts([c])
        return v

    def linearly_refuted(self, pc, extra):
        """refuted by the linear facts alone?  (nonlinear ones may keep the solver from seeing it in time)"""
        if not any(self.is_nonlinear(c) for c in pc):
            return False
        lin = [c for c in pc if not self.is_nonlinear(c)]
        if self.lsolver is None:
            self.lsolver = z3.Solver()
            self.lsolver.set("timeout", 150)
            self.lstack = []
        n = 0
        while n < len(self.lstack) and n < len(lin) and self.lstack[n] is lin[n]:
            n += 1
        if len(self.lstack) > n:
            self.lsolver.pop(len(self.lstack) - n)
            del self.lstack[n:]
        for c in lin[n:]:
            self.lsolver.push()
            self.lsolver.add(c)
            self.lstack.append(c)
        return self.lsolver.check(extra) == z3.unsat

    def many_nonlinear(self, pc):
        return sum(1 for c in pc if self.is_nonlinear(c)) >= 8

    def check_apart(self, pc, extra):
        """z3 does not keep to its time limit on some nonlinear problems: ask it in a child that can be killed."""
        from .prove import portfolio, run_z3
        q = [extra] if extra is not None else []
        few = [c for c in pc if c.get_id() in self.lemma_ids or not self.is_nonlinear(c)]
        won = portfolio([lambda: run_z3(few + q, 0.3)[0], lambda: str(self.solver.check(*q)).upper()], self.feas_timeout / 1000 + 0.4,
                        lambda x: x in ("unsat", "UNSAT", "SAT"), 0)
        return z3.unknown if not won else z3.sat if won[1] == "SAT" else z3.unsat

    def known(self, st, cond):
        """Cheap: is cond decided syntactically?"""
        if not is_sym(cond):
            return bool(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if cond.get_id() in st.pcids:
            return True
        n = z3.Not(cond)
        if z3.is_not(cond):
            n = cond.arg(0)
        if n.get_id() in st.pcids:
            return False
        return None

    def norm(self, cond):
        if not is_sym(cond):
            return bool(cond)
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.hold(c)

    def decide(self, st, cond):
        c = self.norm(cond)
        if c is True or c is False:
            return c
        k = self.known(st, c)
        if k is not None:
            return k
        if self.intmode:
            r = self.quick_bound(st, c)
            if r is not None:
                return r
        n = self.norm(z3.Not(c))
        if n is True or n is False:
            return not n
        k = self.known(st, n)
        if k is not None:
            return not k
        if not self.feasible(st, n):
            self.learn(st, c)
            return True
        if not self.feasible(st, c):
            self.learn(st, n)
            return False
        raise Fork(c)

    def learn(self, st, c):
        st.add(c)
        self.bound_from(st, c)

    def must(self, st, cond):
        """True only if pc proves cond (used for range proofs)."""
        c = self.norm(cond)
        if c is True or c is False:
            return c
        if self.known(st, c):
            return True
        n = self.norm(z3.Not(c))
        return not self.feasible(st, n)

    def assume(self, st, cond):
        if not is_sym(cond):
            if not cond:
                raise PathEnd()
            return
        c = self.norm(cond)
        if c is True:
            return
        if c is False:
            raise PathEnd()
        k = self.known(st, c)
        if k is True:
            return
        if k is False:
            raise PathEnd()
        self.learn(st, c)
        if not self.feasible(st):
            raise PathEnd()

    # ------------------------------------------------------------- obligation
    def oblige(self, st, label, goal, kind="assert"):
        if not is_sym(goal):
            ob = Obligation(label, st.pc, bool(goal), self.curloc, kind)
            if goal:
                ob.status, ob.backend = "proved", "evaluation"
        else:
            ob = Obligation(label, st.pc, goal, self.curloc, kind)
        self.obls.append(ob)
        return ob

    def ub(self, st, label, goal):
        """Implicit obligation; afterwards the path continues under the goal."""
        g = self.norm(goal)
        if g is True:
            return
        if g is not False and (self.known(st, g) or self.must(st, g)):
            self.trivial += 1
            return
        if self.cfg["ub"] == "1":
            self.oblige(st, label, g, "safety")
        if g is False:
            raise PathEnd()
        self.assume(st, g)

    # ------------------------------------------------------------ intervals
    def bound_from(self, st, c):
        if not self.intmode:
            return
        neg = False
        if z3.is_not(c):
            neg = True
            c = c.arg(0)
        if not z3.is_app(c) or c.num_args() != 2:
            return
        k = c.decl().kind()
        a, b = c.arg(0), c.arg(1)
        if not z3.is_int(a):
            return
        ops = {z3.Z3_OP_LE: "le", z3.Z3_OP_GE: "ge", z3.Z3_OP_LT: "lt", z3.Z3_OP_GT: "gt", z3.Z3_OP_EQ: "eq"}
        if k not in ops:
            return
        op = ops[k]
        if neg:
            op = {"le": "gt", "ge": "lt", "lt": "ge", "gt": "le", "eq": "ne"}[op]
        if z3.is_int_value(a) and not z3.is_int_value(b):
            a, b = b, a
            op = {"le": "ge", "ge": "le", "lt": "gt", "gt": "lt", "eq": "eq", "ne": "ne"}[op]
        if not z3.is_int_value(b):
            return
        v = b.as_long()
        lo, hi = self.ival(st, a)
        if op == "le":
            hi = min(hi, v)
        elif op == "lt":
            hi = min(hi, v - 1)
        elif op == "ge":
            lo = max(lo, v)
        elif op == "gt":
            lo = max(lo, v + 1)
        elif op == "eq":
            lo = hi = v
        elif op == "ne":
            if lo == v:
                lo += 1
            if hi == v:
                hi -= 1
        st.bounds[a.get_id()] = (lo, hi, a)

    BIG = 1 << 200

    def ival(self, st, e, memo=None):
        if isinstance(e, int):
            return (e, e)
        if memo is None:
            memo = {}
        i = e.get_id()
        if i in memo:
            return memo[i]
        memo[i] = (-self.BIG, self.BIG)
        lo, hi = -self.BIG, self.BIG
        if z3.is_int_value(e):
            v = e.as_long()
            lo = hi = v
        elif z3.is_app(e):
            k = e.decl().kind()
            if k == z3.Z3_OP_ADD:
                lo = hi = 0
                for c in e.children():
                    l, h = self.ival(st, c, memo)
                    lo += l
                    hi += h
            elif k == z3.Z3_OP_SUB:
                l0, h0 = self.ival(st, e.arg(0), memo)
                lo, hi = l0, h0
                for c in e.children()[1:]:
                    l, h = self.ival(st, c, memo)
                    lo -= h
                    hi -= l
            elif k == z3.Z3_OP_UMINUS:
                l, h = self.ival(st, e.arg(0), memo)
                lo, hi = -h, -l
            elif k == z3.Z3_OP_MUL:
                lo = hi = 1
                for c in e.children():
                    l, h = self.ival(st, c, memo)
                    ps = [lo * l, lo * h, hi * l, hi * h]
                    lo, hi = min(ps), max(ps)
            elif k == z3.Z3_OP_ITE:
                l1, h1 = self.ival(st, e.arg(1), memo)
                l2, h2 = self.ival(st, e.arg(2), memo)
                lo, hi = min(l1, l2), max(h1, h2)
            elif k == z3.Z3_OP_MOD and z3.is_int_value(e.arg(1)) and e.arg(1).as_long() > 0:
                lo, hi = 0, e.arg(1).as_long() - 1
                l, h = self.ival(st, e.arg(0), memo)
                if l >= 0 and h < hi:
                    hi = h
            elif k == z3.Z3_OP_IDIV:
                l, h = self.ival(st, e.arg(0), memo)
                bl, bh = self.ival(st, e.arg(1), memo)
                if bl > 0:
                    cands = [l // bl, l // bh, h // bl, h // bh]
                    lo, hi = min(cands), max(cands)
        if lo < -self.BIG:
            lo = -self.BIG
        if hi > self.BIG:
            hi = self.BIG
        r = self.symrange.get(i)
        if r:
            lo, hi = max(lo, r[0]), min(hi, r[1])
        r = st.bounds.get(i)
        if r:
            lo, hi = max(lo, r[0]), min(hi, r[1])
        memo[i] = (lo, hi)
        return lo, hi

    def quick_bound(self, st, c):
        neg = False
        if z3.is_not(c):
            neg = True
            c = c.arg(0)
        if not z3.is_app(c) or c.num_args() != 2 or not z3.is_int(c.arg(0)):
            return None
        k = c.decl().kind()
        if k not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ):
            return None
        l1, h1 = self.ival(st, c.arg(0))
        l2, h2 = self.ival(st, c.arg(1))
        r = None
        if k == z3.Z3_OP_LE:
            r = True if h1 <= l2 else (False if l1 > h2 else None)
        elif k == z3.Z3_OP_LT:
            r = True if h1 < l2 else (False if l1 >= h2 else None)
        elif k == z3.Z3_OP_GE:
            r = True if l1 >= h2 else (False if h1 < l2 else None)
        elif k == z3.Z3_OP_GT:
            r = True if l1 > h2 else (False if h1 <= l2 else None)
        elif k == z3.Z3_OP_EQ:
            r = False if (h1 < l2 or h2 < l1) else None
        if r is None:
            return None
        return r != neg

    # ------------------------------------------------------------- int values
    def sx(self, v, w):
        """int mode: python signed int or z3 Int."""
        if isinstance(v, int):
            return signed(v, w)
        if isinstance(v, Lin):
            return self.lin_expr(v)
        return v

    def bv(self, v, w):
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            return z3.BitVecVal(v, w)
        if isinstance(v, Lin):
            return self.lin_expr(v)
        if isinstance(v, (Ptr, FnPtr)):
            raise Unsupported("pointer used as integer")
        if isinstance(v, FloatBits):
            if self.fp:
                return z3.fpToIEEEBV(self.fpx(v.v))
            raise Unsupported("bit pattern of a double in real mode")
        if z3.is_bool(v):
            return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        return v

    def lin_expr(self, l):
        if isinstance(l, int):
            return l if self.intmode else z3.BitVecVal(l, 64)
        if self.intmode:
            e = z3.IntVal(l.c) if l.c else None
            for k, x in l.t:
                y = x if k == 1 else k * x
                e = y if e is None else e + y
            return self.hold(e)
        e = z3.BitVecVal(l.c, 64) if l.c else None
        for k, x in l.t:
            y = x if k == 1 else z3.BitVecVal(k, 64) * x
            e = y if e is None else e + y
        return self.hold(e)

    def to_lin(self, v, w=64):
        """integer value (64 bit) as Lin/int for address arithmetic."""
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            return signed(v, w)
        if isinstance(v, Lin):
            return v
        if isinstance(v, (Ptr, FnPtr, FloatBits)):
            raise Unsupported("pointer as index")
        if z3.is_bool(v):
            v = z3.If(v, 1, 0) if self.intmode else z3.If(v, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
        return self.decomp(v)

    def decomp(self, e):
        self.hold(e)
        if z3.is_int_value(e):
            return e.as_long()
        if z3.is_bv_value(e):
            return signed(e.as_long(), e.size())
        if z3.is_app(e):
            k = e.decl().kind()
            if k in (z3.Z3_OP_ADD, z3.Z3_OP_BADD):
                r = 0
                for c in e.children():
                    r = lin_add(r, self.decomp(c))
                return r
            if k in (z3.Z3_OP_SUB, z3.Z3_OP_BSUB):
                r = self.decomp(e.arg(0))
                for c in e.children()[1:]:
                    r = lin_add(r, self.decomp(c), -1)
                return r
            if k in (z3.Z3_OP_MUL, z3.Z3_OP_BMUL) and e.num_args() == 2:
                a, b = e.arg(0), e.arg(1)
                for x, y in ((a, b), (b, a)):
                    if z3.is_int_value(x):
                        return lin_scale(self.decomp(y), x.as_long())
                    if z3.is_bv_value(x):
                        return lin_scale(self.decomp(y), signed(x.as_long(), x.size()))
        return Lin(0, ((1, e),))

    def wrap(self, st, e, w, nsw=False, what="signed overflow"):
        """int mode: bring e (math value) into the signed range of width w."""
        if isinstance(e, int):
            return unsigned(e, w)
        e = z3.simplify(e)
        self.hold(e)
        if z3.is_int_value(e):
            return unsigned(e.as_long(), w)
        L, H = -(1 << (w - 1)), (1 << (w - 1)) - 1
        lo, hi = self.ival(st, e)
        if lo >= L and hi <= H:
            return e
        inr = z3.And(e >= L, e <= H)
        if self.must(st, inr):
            st.bounds[e.get_id()] = (max(lo, L), min(hi, H), e)
            return e
        if nsw:
            self.ub(st, what, inr)
            st.bounds[e.get_id()] = (max(lo, L), min(hi, H), e)
            return e
        if self.decide(st, inr):
            st.bounds[e.get_id()] = (max(lo, L), min(hi, H), e)
            return e
        if self.decide(st, e < L):
            if self.must(st, e + (1 << w) >= L):
                return self.hold(z3.simplify(e + (1 << w)))
        elif self.must(st, e - (1 << w) <= H):
            return self.hold(z3.simplify(e - (1 << w)))
        r = self.hold((e - L) % (1 << w) + L)
        self.symrange[r.get_id()] = (L, H, r)
        return r

    def uns(self, st, v, w):
        """int mode: unsigned reading as math int."""
        v = self.sx(v, w)
        if isinstance(v, int):
            return unsigned(v, w)
        if self.decide(st, v >= 0):
            return v
        return v + (1 << w)

    def binop(self, st, ins, op, a, b, w):
        if isinstance(a, Undef) or isinstance(b, Undef):
            a = 0 if isinstance(a, Undef) else a
            b = 0 if isinstance(b, Undef) else b
        if isinstance(a, int) and isinstance(b, int):
            return self.cbin(st, ins, op, a, b, w)
        if w == 1:
            A = a if is_sym(a) else z3.BoolVal(bool(a))
            B = b if is_sym(b) else z3.BoolVal(bool(b))
            if op == "and":
                r = z3.And(A, B) if is_sym(a) and is_sym(b) else (A if not is_sym(b) and b else B if not is_sym(a) and a else 0)
            elif op == "or":
                r = z3.Or(A, B) if is_sym(a) and is_sym(b) else (1 if (not is_sym(a) and a) or (not is_sym(b) and b) else A if is_sym(a) else B)
            elif op in ("xor", "add", "sub"):
                if not is_sym(b):
                    r = z3.Not(A) if b else A
                elif not is_sym(a):
                    r = z3.Not(B) if a else B
                else:
                    r = z3.Xor(A, B)
            else:
                raise Unsupported("i1 " + op)
            return self.b1(r)
        # pointers / linear offsets
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            return self.ptrbin(st, op, a, b, w)
        if isinstance(a, Lin) or isinstance(b, Lin):
            r = self.linbin(st, op, a, b, w)
            if r is not None:
                return r
            a = self.lin_expr(a) if isinstance(a, Lin) else a
            b = self.lin_expr(b) if isinstance(b, Lin) else b
        if self.intmode:
            return self.ibin(st, ins, op, a, b, w)
        # bit vectors
        if op in ("add", "sub", "or", "xor", "shl", "lshr", "ashr") and isinstance(b, int) and b == 0:
            return a
        if op in ("mul", "and") and isinstance(b, int) and b == 0:
            return 0
        if op in ("mul", "udiv", "sdiv") and isinstance(b, int) and b == 1:
            return a
        A, B = self.bv(a, w), self.bv(b, w)
        if op in ("udiv", "sdiv", "urem", "srem") and not isinstance(b, int):
            self.ub(st, "division by zero", B != 0)
        if ins.get("nsw") and self.cfg["ub"] == "1" and op in ("add", "sub", "mul") and self.cfg.get("nsw", "1") == "1":
            if op == "add":
                g = z3.And(z3.BVAddNoOverflow(A, B, True), z3.BVAddNoUnderflow(A, B))
            elif op == "sub":
                g = z3.And(z3.BVSubNoOverflow(A, B), z3.BVSubNoUnderflow(A, B, True))
            else:
                g = z3.And(z3.BVMulNoOverflow(A, B, True), z3.BVMulNoUnderflow(A, B))
            self.ub(st, "signed overflow", g)
        f = {"add": lambda: A + B, "sub": lambda: A - B, "mul": lambda: A * B, "udiv": lambda: z3.UDiv(A, B),
             "sdiv": lambda: A / B, "urem": lambda: z3.URem(A, B), "srem": lambda: z3.SRem(A, B),
             "and": lambda: A & B, "or": lambda: A | B, "xor": lambda: A ^ B, "shl": lambda: A << B,
             "lshr": lambda: z3.LShR(A, B), "ashr": lambda: A >> B}[op]
        return self.i(f())

    def i(self, e):
        """normalise an integer z3 result."""
        e = z3.simplify(e)
        if z3.is_bv_value(e) or z3.is_int_value(e):
            if z3.is_bv_value(e):
                return e.as_long()
        return self.hold(e)

    def b1(self, e):
        if not is_sym(e):
            return int(bool(e))
        e = z3.simplify(e)
        if z3.is_true(e):
            return 1
        if z3.is_false(e):
            return 0
        return self.hold(e)

    def cbin(self, st, ins, op, a, b, w):
        m = (1 << w) - 1
        if op in ("udiv", "sdiv", "urem", "srem") and b == 0:
            self.ub(st, "division by zero", False)
        if op == "add":
            r = a + b
        elif op == "sub":
            r = a - b
        elif op == "mul":
            r = a * b
        elif op == "udiv":
            r = a // b
        elif op == "urem":
            r = a % b
        elif op in ("sdiv", "srem"):
            x, y = signed(a, w), signed(b, w)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            r = q if op == "sdiv" else x - q * y
        elif op == "and":
            r = a & b
        elif op == "or":
            r = a | b
        elif op == "xor":
            r = a ^ b
        elif op == "shl":
            r = a << b if b < w else 0
        elif op == "lshr":
            r = a >> b if b < w else 0
        elif op == "ashr":
            r = signed(a, w) >> min(b, w - 1)
        else:
            raise Unsupported(op)
        if ins.get("nsw") and op in ("add", "sub", "mul") and self.cfg["ub"] == "1":
            x, y = signed(a, w), signed(b, w)
            t = x + y if op == "add" else x - y if op == "sub" else x * y
            if not (-(1 << (w - 1)) <= t < (1 << (w - 1))):
                self.ub(st, "signed overflow", False)
        return r & m

    def ptrbin(self, st, op, a, b, w):
        if op == "add":
            if isinstance(b, Ptr):
                a, b = b, a
            if isinstance(a, Ptr) and not isinstance(b, (Ptr, FnPtr)):
                return Ptr(a.o, lin_add(a.off, self.to_lin(b, w)))
        elif op == "sub":
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.o == b.o:
                    r = lin_add(a.off, b.off, -1)
                    return unsigned(r, w) if isinstance(r, int) else r
                raise Unsupported("difference of pointers into different objects")
            if isinstance(a, Ptr) and not isinstance(b, FnPtr):
                return Ptr(a.o, lin_add(a.off, self.to_lin(b, w), -1))
        elif op == "and" and isinstance(b, int):
            if isinstance(a, FnPtr):
                if b == 1:
                    return 0
                return a
            if isinstance(a, Ptr) and isinstance(a.off, int):
                if b < 16:
                    return a.off & b
                sb = signed(b, w)
                if -16 <= sb < 0:
                    return Ptr(a.o, a.off & sb)
        elif op in ("or", "xor") and isinstance(b, int) and b == 0:
            return a
        raise Unsupported("pointer arithmetic " + op)

    def linbin(self, st, op, a, b, w):
        def lin(x):
            return x if isinstance(x, Lin) else self.to_lin(x, w)
        if op == "add":
            r = lin_add(lin(a), lin(b))
        elif op == "sub":
            r = lin_add(lin(a), lin(b), -1)
        elif op == "mul" and isinstance(b, int):
            r = lin_scale(a, signed(b, w))
        elif op == "mul" and isinstance(a, int):
            r = lin_scale(b, signed(a, w))
        elif op == "shl" and isinstance(b, int):
            r = lin_scale(a, 1 << b)
        elif op in ("sdiv", "udiv", "ashr", "lshr") and isinstance(b, int) and isinstance(a, Lin):
            d = signed(b, w) if op in ("sdiv", "udiv") else 1 << b
            if d and a.c % d == 0 and all(k % d == 0 for k, e in a.t):
                r = Lin.make(a.c // d, [(k // d, e) for k, e in a.t])
            else:
                return None
        else:
            return None
        return self.unlin(st, r, w)

    def unlin(self, st, r, w):
        if isinstance(r, int):
            return unsigned(r, w)
        if r.c == 0 and len(r.t) == 1 and r.t[0][0] == 1:
            return r.t[0][1]
        return r

    def ibin(self, st, ins, op, a, b, w):
        nsw = ins.get("nsw", False)
        A, B = self.sx(a, w), self.sx(b, w)
        if op == "add":
            return self.wrap(st, A + B, w, nsw)
        if op == "sub":
            return self.wrap(st, A - B, w, nsw)
        if op == "mul":
            return self.wrap(st, A * B, w, nsw)
        if op in ("udiv", "urem"):
            A, B = self.uns(st, a, w), self.uns(st, b, w)
            self.ub(st, "division by zero", B != 0)
            A = z3.IntVal(A) if isinstance(A, int) else A
            return self.wrap(st, self.idiv(st, A, B) if op == "udiv" else self.imod(st, A, B), w)
        if op in ("sdiv", "srem"):
            if not isinstance(B, int):
                self.ub(st, "division by zero", B != 0)
            bp = self.decide(st, B > 0) if not isinstance(B, int) else B > 0
            ap = self.decide(st, A >= 0) if not isinstance(A, int) else A >= 0
            ua = A if ap else -A
            ub_ = B if bp else -B
            if isinstance(ua, int):
                ua = z3.IntVal(ua)
            if op == "sdiv":
                q = self.idiv(st, ua, ub_)
                return self.wrap(st, q if ap == bp else -q, w, True)
            r = self.imod(st, ua, ub_)
            return self.wrap(st, r if ap else -r, w)
        if op == "shl" and isinstance(b, int):
            return self.wrap(st, A * (1 << b), w, nsw)
        if op in ("lshr", "ashr") and isinstance(b, int):
            if op == "lshr":
                A = self.uns(st, a, w)
            return self.wrap(st, A / (1 << b), w)
        if op == "and":
            if isinstance(a, int):
                a, b, A, B = b, a, B, A
            if isinstance(b, int) and b & (b + 1) == 0:
                return self.wrap(st, A % (b + 1), w)
            if isinstance(b, int):
                m = unsigned(~b, w)
                if m & (m + 1) == 0:   # clear low bits
                    return self.wrap(st, A - A % (m + 1), w)
        if op == "xor" and isinstance(b, int) and signed(b, w) == -1:
            return self.wrap(st, -A - 1, w)
        if op == "or" and isinstance(b, int) and b == 0:
            return a
        if isinstance(a, int) and a == 0 and op in ("or", "xor"):
            return b
        # fall back to bit vectors
        x = z3.Int2BV(A if not isinstance(A, int) else z3.IntVal(A), w)
        y = z3.Int2BV(B if not isinstance(B, int) else z3.IntVal(B), w)
        f = {"and": x & y, "or": x | y, "xor": x ^ y, "shl": x << y, "lshr": z3.LShR(x, y), "ashr": x >> y}[op]
        r = self.hold(z3.BV2Int(f, True))
        self.symrange[r.get_id()] = (-(1 << (w - 1)), (1 << (w - 1)) - 1, r)
        return r

    def idiv(self, st, a, b):
        """a>=0, b>0.  Symbolic divisor: introduce q,r with a = q*b + r."""
        if isinstance(b, int):
            s = self.lindiv(st, a, b)
            return s[0] if s else a / b
        q, r = self.divmod_syms(st, a, b)
        return q

    def lindiv(self, st, a, c):
        """a = c*q + rest with rest provably in [0,c): exact quotient and remainder"""
        e = z3.simplify(a, som=True)
        terms = e.children() if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ADD else [e]
        q, rest = z3.IntVal(0), z3.IntVal(0)
        some = False
        for t in terms:
            k, x = 1, t
            if z3.is_int_value(t):
                k, x = t.as_long(), None
            elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MUL and t.num_args() == 2 and z3.is_int_value(t.arg(0)):
                k, x = t.arg(0).as_long(), t.arg(1)
            if k % c == 0:
                q = q + (k // c if x is None else (k // c) * x)
                some = True
            elif x is None:
                q = q + k // c
                rest = rest + k % c
            else:
                rest = rest + t
        rest, q = z3.simplify(rest), z3.simplify(q)
        lo, hi = self.ival(st, rest)
        if lo >= 0 and hi < c:
            self.hold(q)
            self.hold(rest)
            return q, rest
        return None

    def imod(self, st, a, b):
        if isinstance(b, int):
            s = self.lindiv(st, a, b)
            return s[1] if s else a % b
        q, r = self.divmod_syms(st, a, b)
        return r

    def divmod_syms(self, st, a, b):
        a, b = z3.simplify(a), z3.simplify(b)
        key = ("divmod", a.get_id(), b.get_id())
        if key not in self.defs:
            self.hold(a)
            self.hold(b)
            q, r = z3.Int(self.fresh("q")), z3.Int(self.fresh("r"))
            self.hold(q)
            self.hold(r)
            self.symrange[q.get_id()] = (0, self.BIG, q)
            self.symrange[r.get_id()] = (0, self.BIG, r)
            self.defs[key] = (q, r, [self.hold(c) for c in (a == q * b + r, r >= 0, r < b, q >= 0, q <= a, r <= a)])
        q, r, cs = self.defs[key]
        for c in cs:
            st.add(c)
        lo, hi = self.ival(st, a)
        st.bounds[q.get_id()] = (0, hi, q)
        bl, bh = self.ival(st, b)
        st.bounds[r.get_id()] = (0, min(hi, bh - 1), r)
        return q, r

    def icmp(self, st, pred, a, b, w, isptr):
        if isinstance(a, Undef):
            a = 0
        if isinstance(b, Undef):
            b = 0
        if isinstance(a, int) and isinstance(b, int):
            if pred in ("slt", "sle", "sgt", "sge"):
                a, b = signed(a, w), signed(b, w)
            return int({"eq": a == b, "ne": a != b, "ult": a < b, "ule": a <= b, "ugt": a > b, "uge": a >= b,
                        "slt": a < b, "sle": a <= b, "sgt": a > b, "sge": a >= b}[pred])
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            same = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
            if pred == "eq":
                return int(same)
            if pred == "ne":
                return int(not same)
            raise Unsupported("function pointer order")
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
                d = lin_add(a.off, b.off, -1)
                return self.cmp_lin(st, pred, d)
            if isinstance(a, Ptr) and isinstance(b, Ptr) or isinstance(a, int) or isinstance(b, int):
                if pred == "eq":
                    return 0
                if pred == "ne":
                    return 1
                # distinct objects: no defined order; null sorts first
                if isinstance(a, int):
                    return int(pred in ("ult", "ule"))
                if isinstance(b, int):
                    return int(pred in ("ugt", "uge"))
                x, y = a.o, b.o
                return int({"ult": x < y, "ule": x < y, "ugt": x > y, "uge": x > y}[pred])
            raise Unsupported("pointer comparison")
        if isinstance(a, FloatBits) or isinstance(b, FloatBits):
            if not self.fp:
                raise Unsupported("bit pattern of a double in real mode")
        if isinstance(a, Lin) or isinstance(b, Lin):
            d = lin_add(self.to_lin(a, w), self.to_lin(b, w), -1)
            if pred in ("eq", "ne"):
                return self.cmp_lin(st, pred, d)
            if isinstance(b, int) and b == 0 and pred in ("slt", "sle", "sgt", "sge"):
                return self.cmp_lin(st, pred, d)
            a = self.lin_expr(a) if isinstance(a, Lin) else a
            b = self.lin_expr(b) if isinstance(b, Lin) else b
        if self.intmode:
            A, B = self.sx(a, w), self.sx(b, w)
            if pred in ("eq", "ne"):
                return self.b1(A == B if pred == "eq" else A != B)
            if pred[0] == "u":
                A, B = self.uns(st, a, w), self.uns(st, b, w)
            p = pred[1:]
            return self.b1({"lt": A < B, "le": A <= B, "gt": A > B, "ge": A >= B}[p])
        A, B = self.bv(a, w), self.bv(b, w)
        if pred == "eq":
            r = A == B
        elif pred == "ne":
            r = A != B
        elif pred[0] == "u":
            r = {"ult": z3.ULT, "ule": z3.ULE, "ugt": z3.UGT, "uge": z3.UGE}[pred](A, B)
        else:
            r = {"slt": A < B, "sle": A <= B, "sgt": A > B, "sge": A >= B}[pred]
        return self.b1(r)

    def cmp_lin(self, st, pred, d):
        if isinstance(d, int):
            return int({"eq": d == 0, "ne": d != 0, "ult": d < 0, "ule": d <= 0, "ugt": d > 0, "uge": d >= 0,
                        "slt": d < 0, "sle": d <= 0, "sgt": d > 0, "sge": d >= 0}[pred])
        g = abs(d.c)
        for k, e in d.t:
            g = math.gcd(g, abs(k))
        # offsets are assumed not to wrap (objects fit the address space)
        x = self.lin_expr(Lin.make(d.c // g, [(k // g, e) for k, e in d.t]))
        if pred == "eq":
            return self.b1(x == 0)
        if pred == "ne":
            return self.b1(x != 0)
        p = pred[1:]
        return self.b1({"lt": x < 0, "le": x <= 0, "gt": x > 0, "ge": x >= 0}[p])

    # ------------------------------------------------------------- casts
    def cast(self, st, ins, op, v, ft, tt):
        fk, tk = ft["k"], tt["k"]
        if isinstance(v, Undef):
            return v
        if op in ("bitcast", "addrspacecast"):
            if fk == tk:
                return v
            if fk in "df" and tk == "i":
                if self.fp:
                    return self.i(z3.fpToIEEEBV(self.fpx(v))) if fk == "d" else FloatBits(v)
                return FloatBits(v)
            if fk == "i" and tk in "df":
                if isinstance(v, FloatBits):
                    return v.v
                if isinstance(v, int):
                    import struct
                    if ft["w"] == 64:
                        return self.cf(struct.unpack("<d", struct.pack("<Q", v))[0])
                    return self.cf(struct.unpack("<f", struct.pack("<I", v))[0])
                if self.fp:
                    return self.hold(z3.fpBVToFP(v, z3.Float64()))
            raise Unsupported("bitcast %s -> %s" % (fk, tk))
        if op in ("ptrtoint", "inttoptr"):
            return v
        if op in ("sitofp", "uitofp"):
            return self.int2fp(st, v, ft["w"], op == "sitofp")
        if op in ("fptosi", "fptoui"):
            r = self.fp2int(st, v, tt["w"], op == "fptosi")
            if "fptosi" in self.cfg and is_sym(r):
                # a separate path for each value of a small range
                lo, hi = self.cfg["fptosi"].split(":")
                R = self.sx(r, tt["w"])
                for k in range(int(lo), int(hi) + 1):
                    if self.decide(st, R == k):
                        return unsigned(k, tt["w"])
            return r
        if op in ("fptrunc", "fpext"):
            if self.fp and op == "fptrunc" and tk == "f":
                raise Unsupported("float in fp mode")
            return v
        fw, tw = ft["w"], tt["w"]
        if isinstance(v, int):
            if op == "zext":
                return v
            if op == "sext":
                return unsigned(signed(v, fw), tw)
            return v & ((1 << tw) - 1)
        if isinstance(v, (Ptr, FnPtr)):
            if op == "trunc" and tw >= 32:
                return v
            raise Unsupported("truncated pointer")
        if isinstance(v, FloatBits):
            raise Unsupported("bits of double")
        if isinstance(v, Lin):
            v = self.lin_expr(v)
        if fw == 1:
            if self.intmode:
                r = self.hold(z3.If(v, 1 if op == "zext" else -1, z3.IntVal(0)))
            else:
                r = self.hold(z3.If(v, z3.BitVecVal(1 if op == "zext" else -1, tw), z3.BitVecVal(0, tw)))
            self.boolof[r.get_id()] = (v, r)
            return r
        if tw == 1:
            bo = self.boolof.get(v.get_id())
            if bo:
                return bo[0]
            if self.intmode:
                lo, hi = self.ival(st, v)
                if lo >= 0 and hi <= 1:
                    return self.b1(v == 1)
                return self.b1(v % 2 == 1)
            return self.b1(z3.Extract(0, 0, v) == 1)
        if self.intmode:
            if op == "sext":
                return v
            if op == "zext":
                r = self.uns(st, v, fw)
                return self.hold(z3.simplify(r)) if is_sym(r) else r
            # trunc
            return self.wrap(st, v, tw)
        bo = self.boolof.get(v.get_id())
        if op == "zext":
            r = z3.ZeroExt(tw - fw, v)
        elif op == "sext":
            r = z3.SignExt(tw - fw, v)
        else:
            r = z3.Extract(tw - 1, 0, v)
        r = self.i(r)
        if bo and is_sym(r) and op != "sext":
            self.boolof[r.get_id()] = (bo[0], r)
        return r

    # ------------------------------------------------------------- doubles
    def cf(self, x):
        """python float constant -> domain value"""
        if self.fp:
            return x
        if x != x:
            return NAN
        if x in (float("inf"), float("-inf")):
            return INF if x > 0 else NINF
        return Fraction(repr(x)) if x != int(x) or abs(x) > 1e22 else Fraction(int(x))

    def rx(self, v):
        if isinstance(v, Fraction):
            return self.hold(z3.RealVal(v))
        if isinstance(v, Undef):
            return z3.RealVal(0)
        return v

    def fpx(self, v):
        if isinstance(v, float):
            return z3.FPVal(v, z3.Float64())
        if isinstance(v, Undef):
            return z3.FPVal(0.0, z3.Float64())
        return v

    def r(self, e):
        e2 = e
        if z3.is_rational_value(e2):
            return Fraction(e2.numerator_as_long(), e2.denominator_as_long())
        return self.hold(e2)

    def int2fp(self, st, v, w, sg):
        if isinstance(v, int):
            x = signed(v, w) if sg else v
            return float(x) if self.fp else Fraction(x)
        if isinstance(v, Lin):
            v = self.lin_expr(v)
        if w == 1:
            if self.fp:
                return self.hold(z3.If(v, z3.FPVal(1.0, z3.Float64()), z3.FPVal(0.0, z3.Float64())))
            return Fraction(1) if self.decide(st, v) else Fraction(0)
        if self.fp:
            if self.intmode:
                raise Unsupported("fp with int mode")
            return self.hold((z3.fpSignedToFP if sg else z3.fpUnsignedToFP)(z3.RNE(), v, z3.Float64()))
        if self.intmode:
            if not sg:
                v = self.uns(st, v, w)
            return self.r(z3.ToReal(v))
        return self.r(z3.ToReal(z3.BV2Int(v, sg)))

    def fp2int(self, st, v, w, sg):
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
        if isinstance(v, Special):
            self.ub(st, "fp-to-int conversion in range", False)
        if isinstance(v, float):
            if v != v or abs(v) == float("inf") or not (lo <= math.trunc(v) <= hi):
                self.ub(st, "fp-to-int conversion in range", False)
            return unsigned(math.trunc(v), w)
        if isinstance(v, Fraction):
            t = math.trunc(v)
            if not lo <= t <= hi:
                self.ub(st, "fp-to-int conversion in range", False)
            return unsigned(t, w)
        if self.fp:
            ok = z3.And(z3.Not(z3.fpIsNaN(v)), z3.fpLT(v, z3.FPVal(float(hi + 1), z3.Float64())),
                        z3.fpGEQ(v, z3.FPVal(float(lo), z3.Float64())) if sg else
                        z3.fpGT(v, z3.FPVal(-1.0, z3.Float64())))
            self.ub(st, "fp-to-int conversion in range", ok)
            return self.i((z3.fpToSBV if sg else z3.fpToUBV)(z3.RTZ(), v, z3.BitVecSort(w)))
        t = self.truncr(st, v)
        self.ub(st, "fp-to-int conversion in range", z3.And(t >= lo, t <= hi))
        if self.intmode:
            if not sg:
                return self.wrap(st, t, w)
            st.bounds[t.get_id()] = (lo, hi, t)
            return t
        return self.hold(z3.Int2BV(t, w))

    def floorr(self, st, x):
        """floor of a real expr as an Int symbol."""
        x = z3.simplify(x)
        self.hold(x)
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_REAL:
            return x.arg(0)
        key = ("floor", x.get_id())
        if key not in self.defs:
            n = self.hold(z3.Int(self.fresh("floor")))
            self.defs[key] = (n, [self.hold(z3.ToReal(n) <= x), self.hold(x < z3.ToReal(n) + 1)])
        n, cs = self.defs[key]
        for c in cs:
            st.add(c)
        return n

    def truncr(self, st, x):
        if self.decide(st, x >= 0):
            n = self.floorr(st, x)
            lo, hi = self.ival(st, n)
            st.bounds[n.get_id()] = (max(lo, 0), hi, n)
            return n
        n = self.floorr(st, -x)
        return self.hold(z3.simplify(-n))

    def fneg(self, a):
        if isinstance(a, Special):
            return {"inf": NINF, "-inf": INF, "nan": NAN}[a.k]
        if isinstance(a, (Fraction, float)):
            return -a
        if self.fp:
            return self.hold(z3.fpNeg(a))
        return self.r(-a)

    def sign(self, st, a):
        if isinstance(a, Special):
            return {"inf": 1, "-inf": -1, "nan": 0}[a.k]
        if isinstance(a, Fraction):
            return (a > 0) - (a < 0)
        if self.decide(st, a > 0):
            return 1
        if self.decide(st, a < 0):
            return -1
        return 0

    def fbin(self, st, op, a, b):
        if isinstance(a, Undef):
            a = 0.0 if self.fp else Fraction(0)
        if isinstance(b, Undef):
            b = 0.0 if self.fp else Fraction(0)
        if self.fp:
            if isinstance(a, float) and isinstance(b, float):
                try:
                    if op == "fadd":
                        return a + b
                    if op == "fsub":
                        return a - b
                    if op == "fmul":
                        return a * b
                    if op == "fdiv" and b != 0:
                        return a / b
                    if op == "frem" and b != 0 and abs(a) != float("inf"):
                        return math.fmod(a, b)
                except OverflowError:
                    pass
            A, B = self.fpx(a), self.fpx(b)
            rm = z3.RNE()
            if op == "frem":
                raise Unsupported("frem in fp mode")
            e = {"fadd": z3.fpAdd, "fsub": z3.fpSub, "fmul": z3.fpMul, "fdiv": z3.fpDiv}[op](rm, A, B)
            return self.hold(e)
        if isinstance(a, Special) or isinstance(b, Special):
            return self.fspecial(st, op, a, b)
        ca, cb = isinstance(a, Fraction), isinstance(b, Fraction)
        if op == "fadd":
            if ca and cb:
                return a + b
            if ca and a == 0:
                return b
            if cb and b == 0:
                return a
            return self.r(self.rx(a) + self.rx(b))
        if op == "fsub":
            if ca and cb:
                return a - b
            if cb and b == 0:
                return a
            if ca and a == 0:
                return self.r(-self.rx(b))
            return self.r(self.rx(a) - self.rx(b))
        if op == "fmul":
            if ca and cb:
                return a * b
            if ca and a == 0 or cb and b == 0:
                return Fraction(0)
            if ca and a == 1:
                return b
            if cb and b == 1:
                return a
            return self.r(self.rx(a) * self.rx(b))
        if op == "fdiv":
            if cb:
                if b == 0:
                    s = self.sign(st, a)
                    self.trusted.add("zeros are unsigned: x/0 is +inf/-inf by the sign of x, 0/0 is NaN")
                    return INF if s > 0 else NINF if s < 0 else NAN
                if ca:
                    return a / b
                if b == 1:
                    return a
                return self.r(self.rx(a) / self.rx(b))
            if self.decide(st, b == 0):
                s = self.sign(st, a)
                self.trusted.add("zeros are unsigned: x/0 is +inf/-inf by the sign of x, 0/0 is NaN")
                return INF if s > 0 else NINF if s < 0 else NAN
            if ca and a == 0:
                return Fraction(0)
            return self.r(self.rx(a) / self.rx(b))
        if op == "frem":
            if ca and cb and b != 0:
                q = math.trunc(a / b)
                return a - q * b
            if self.decide(st, self.rx(b) == 0) if not cb else b == 0:
                return NAN
            q = self.truncr(st, self.rx(a) / self.rx(b))
            return self.r(self.rx(a) - z3.ToReal(q) * self.rx(b))
        raise Unsupported(op)

    def fspecial(self, st, op, a, b):
        for x in (a, b):
            if isinstance(x, Special) and x.k == "nan":
                return NAN
        if op == "fsub":
            return self.fspecial(st, "fadd", a, self.fneg(b))
        if op == "fadd":
            if isinstance(a, Special) and isinstance(b, Special):
                return a if a.k == b.k else NAN
            return a if isinstance(a, Special) else b
        if op == "fmul":
            s = self.sign(st, a) * self.sign(st, b)
            return INF if s > 0 else NINF if s < 0 else NAN
        if op == "fdiv":
            if isinstance(a, Special) and isinstance(b, Special):
                return NAN
            if isinstance(a, Special):
                sb = self.sign(st, b)
                s = self.sign(st, a) * (sb if sb else 1)
                return INF if s > 0 else NINF
            return Fraction(0)
        raise Unsupported("special " + op)

    def fcmp(self, st, pred, a, b):
        if pred in ("true", "false"):
            return int(pred == "true")
        if isinstance(a, Undef):
            a = 0.0 if self.fp else Fraction(0)
        if isinstance(b, Undef):
            b = 0.0 if self.fp else Fraction(0)
        if self.fp:
            if isinstance(a, float) and isinstance(b, float):
                un = a != a or b != b
                if pred == "uno":
                    return int(un)
                if pred == "ord":
                    return int(not un)
                p, u = FCMP[pred]
                if un:
                    return int(u)
                return int({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p])
            A, B = self.fpx(a), self.fpx(b)
            un = z3.Or(z3.fpIsNaN(A), z3.fpIsNaN(B))
            if pred == "uno":
                return self.b1(un)
            if pred == "ord":
                return self.b1(z3.Not(un))
            p, u = FCMP[pred]
            c = {"eq": z3.fpEQ, "lt": z3.fpLT, "le": z3.fpLEQ, "gt": z3.fpGT, "ge": z3.fpGEQ}
            if p == "ne":
                e = z3.Not(z3.fpEQ(A, B))
                if not u:
                    e = z3.And(z3.Not(un), e)
            else:
                e = c[p](A, B)
                if u:
                    e = z3.Or(un, e)
            return self.b1(e)
        if isinstance(a, Special) or isinstance(b, Special):
            nan = (isinstance(a, Special) and a.k == "nan") or (isinstance(b, Special) and b.k == "nan")
            if pred == "uno":
                return int(nan)
            if pred == "ord":
                return int(not nan)
            p, u = FCMP[pred]
            if nan:
                return int(u)
            def key(x):
                return {"inf": 1, "-inf": -1}[x.k] if isinstance(x, Special) else 0
            x, y = key(a), key(b)
            return int({"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[p])
        if pred == "uno":
            return 0
        if pred == "ord":
            return 1
        p, u = FCMP[pred]
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            return int({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p])
        A, B = self.rx(a), self.rx(b)
        e = {"eq": A == B, "ne": A != B, "lt": A < B, "le": A <= B, "gt": A > B, "ge": A >= B}[p]
        return self.b1(e)

    def sum_of_squares(self, e):
        if z3.is_rational_value(e):
            return e.numerator_as_long() >= 0
        if not z3.is_app(e):
            return False
        k = e.decl().kind()
        if k == z3.Z3_OP_ADD:
            return all(self.sum_of_squares(c) for c in e.children())
        if k == z3.Z3_OP_MUL:
            ch = e.children()
            if len(ch) == 2 and ch[0].eq(ch[1]):
                return True
            return all(self.sum_of_squares(c) for c in ch)
        if k == z3.Z3_OP_POWER:
            return z3.is_rational_value(e.arg(1)) and e.arg(1).denominator_as_long() == 1 and e.arg(1).numerator_as_long() % 2 == 0 and e.arg(1).numerator_as_long() > 0
        return e.get_id() in self.sqrt_rel

    def sqrt(self, st, x):
        if self.fp:
            if isinstance(x, float):
                return math.sqrt(x) if x >= 0 else float("nan")
            return self.hold(z3.fpSqrt(z3.RNE(), x))
        if isinstance(x, Special):
            return NAN if x.k != "inf" else INF
        if isinstance(x, Fraction):
            if x < 0:
                return NAN
            n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
            if n * n == x.numerator and d * d == x.denominator:
                return Fraction(n, d)
            x = self.rx(x)
        else:
            if not self.sum_of_squares(x) and not self.decide(st, x >= 0):
                return NAN
        x = z3.simplify(x)
        self.hold(x)
        key = ("sqrt", x.get_id())
        if key not in self.defs:
            y = self.hold(z3.Real(self.fresh("sqrt")))
            self.defs[key] = (y, [self.hold(y >= 0), self.hold(y * y == x)])
            self.sqrt_rel[y.get_id()] = (y, x)
        y, cs = self.defs[key]
        for c in cs:
            st.add(c)
        return y

    def fabs(self, st, x):
        if isinstance(x, Special):
            return INF if x.k != "nan" else x
        if isinstance(x, (Fraction, float)):
            return abs(x)
        if self.fp:
            return self.hold(z3.fpAbs(x))
        if self.cfg.get("abs") == "ite":
            return self.hold(z3.If(x >= 0, x, -x))
        if self.decide(st, x >= 0):
            return x
        return self.r(-x)
