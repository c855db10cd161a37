"""Contracts (trusted) for functions outside /repo: the C/C++ runtime, libm,
libstdc++ internals, logging, and the vc_* contract language itself."""
import re
import math
import z3
from .values import *


def _exc():
    from . import execu
    return execu


EMPTY_THROWS = {
    "_ZSt20__throw_length_errorPKc": "_ZTISt12length_error",
    "_ZSt20__throw_out_of_rangePKc": "_ZTISt12out_of_range",
    "_ZSt24__throw_out_of_range_fmtPKcz": "_ZTISt12out_of_range",
    "_ZSt19__throw_logic_errorPKc": "_ZTISt11logic_error",
    "_ZSt24__throw_invalid_argumentPKc": "_ZTISt16invalid_argument",
    "_ZSt17__throw_bad_allocv": "_ZTISt9bad_alloc",
    "_ZSt28__throw_bad_array_new_lengthv": "_ZTISt9bad_alloc",
    "_ZSt25__throw_bad_function_callv": "_ZTISt17bad_function_call",
    "_ZSt21__throw_runtime_errorPKc": "_ZTISt13runtime_error",
}

SIZES = {"i": 8}


class Models:
    def __init__(self, ex):
        self.ex = ex
        self.cache = {}
        self.exact = {}
        for n in dir(self):
            if n.startswith("f_"):
                self.exact[n[2:]] = getattr(self, n)
        for n, ti in EMPTY_THROWS.items():
            self.exact[n] = self.thrower(ti)
        for n in ("sin", "cos", "tan", "asin", "acos", "atan", "exp", "log", "sinh", "cosh", "tanh", "asinh", "acosh",
                  "atanh", "erf", "erfc", "cbrt", "tgamma", "lgamma", "log10", "log2", "log1p", "expm1", "exp2"):
            self.exact[n] = self.mathfn(n)
            self.exact["llvm.%s.f64" % n] = self.mathfn(n)
        for n in ("_Znwm", "_Znam", "malloc"):
            self.exact[n] = self.alloc
        self.exact["_ZnwmSt11align_val_t"] = self.alloc
        for n in ("_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "free", "_ZdlPvmSt11align_val_t", "_ZdlPvSt11align_val_t"):
            self.exact[n] = self.free
        self.patterns = [
            (r"^(virtual thunk to |void )?einhard::", self.noop),
            (r"^std::(basic_)?(ostream|istream|ios|stringstream|ostringstream|fstream|ofstream|ifstream)", self.stream),
            (r"^std::__cxx11::basic_(string|o?stringstream|istringstream|stringbuf)<.*>::(basic_)?(o|i)?stringstream", self.noop),
            (r"^std::__cxx11::basic_(o|i)?stringstream<", self.streamstr),
            (r"^std::basic_[oi]?stream<", self.stream),
            (r"^std::basic_[io]?fstream<", self.stream),
            (r"^std::basic_ostream<.*>& std::(operator<<|endl|flush|__ostream_insert)", self.stream),
            (r"^std::ios_base", self.noop),
            (r"^double std::generate_canonical<", self.canonical),
            (r"^std::mersenne_twister_engine<.*>::operator\(\)", self.rawrandom),
            (r"^std::mersenne_twister_engine<", self.noop),
        ]
        self.strpatterns = [
            (r"^std::__cxx11::basic_string<char, .*>::basic_string(<.*>)?\(", self.str_ctor),
            (r"^std::__cxx11::basic_string<char, .*>::~basic_string\(", self.noop),
            (r"^std::__cxx11::basic_string<char, .*>::(operator=|operator\+=|append|assign|insert|replace|push_back|_M_\w+|reserve|resize|clear|erase|swap)", self.ret0),
            (r"^std::__cxx11::basic_string<char, .*> std::operator\+", self.str_sret),
            (r"^std::__cxx11::to_string\(", self.str_sret),
            (r"^std::__cxx11::basic_string<char, .*> (std::|smash::)", self.str_sret),
            (r"^std::__cxx11::basic_string<char, .*>::substr", self.str_sret),
            (r"^smash::(build_error_string|fill_left|fill_right|fill_both|trim|split|format|demangle|to_string)\b", self.str_sret),
        ]

    # -------------------------------------------------------------- lookup
    def lookup(self, name, f):
        if name in self.cache:
            h = self.cache[name]
        else:
            h = self.find(name, f)
            if h is not None:
                h = self.counted(name, f, h)
            self.cache[name] = h
        return h

    def counted(self, name, f, h):
        ex = self.ex
        label = f["dem"] if f else name

        def g(st, args, ins):
            ex.modelled[label] = ex.modelled.get(label, 0) + 1
            return h(st, args, ins)
        return g

    def find(self, name, f):
        ex = self.ex
        stub = "vcstub_" + name
        if stub in ex.F and not ex.F[stub]["decl"]:
            return lambda st, a, ins: ex.call(st, stub, a, ins)
        h = self.exact.get(name)
        if h is not None:
            return h
        if name.startswith("llvm."):
            base = re.sub(r"(\.(p0|i\d+|f\d+|p0i8))+$", "", name)
            h = getattr(self, "i_" + base[5:].replace(".", "_"), None)
            if h is not None:
                w = re.search(r"\.i(\d+)", name)
                ww = int(w.group(1)) if w else 64
                return lambda st, a, ins: h(st, a, ww)
            return None
        if f is None:
            return None
        dem = f["dem"]
        for p, h in self.patterns:
            if re.match(p, dem):
                return h
        if ex.cfg["strings"] == "0":
            for p, h in self.strpatterns:
                if re.match(p, dem):
                    return h
        return None

    # -------------------------------------------------------------- helpers
    def cstr(self, st, p):
        o = self.ex.robj(st, p.o)
        s = []
        i = p.off
        while True:
            c = o.cells.get(i)
            b = c.v if c is not None else 0
            if not isinstance(b, int) or b == 0:
                break
            s.append(chr(b))
            i += 1
        return "".join(s)

    def thrower(self, ti):
        def h(st, args, ins):
            raise _exc().Throw(ti)
        return h

    def noop(self, st, args, ins):
        ex = self.ex
        if ins is not None:
            t = ex.T[ins["t"]]
            if t["k"] == "v":
                return None
            return ex.zero_of(t)
        return None

    def ret0(self, st, args, ins):
        return args[0]

    def stream(self, st, args, ins):
        ex = self.ex
        t = ex.T[ins["t"]]
        if t["k"] == "p":
            return args[0]
        return None if t["k"] == "v" else ex.zero_of(t)

    def streamstr(self, st, args, ins):
        # .str() returns a string by sret
        t = self.ex.T[ins["t"]]
        if t["k"] == "v" and len(args) >= 2:
            return None
        return self.stream(st, args, ins)

    def str_init(self, st, p):
        ex = self.ex
        if not isinstance(p, Ptr):
            return
        P = {"k": "p", "sz": 8}
        I = {"k": "i", "w": 64, "sz": 8}
        ex.store(st, p, P, ex.padd(p, 16))
        ex.store(st, ex.padd(p, 8), I, 0)
        ex.store(st, ex.padd(p, 16), {"k": "i", "w": 8, "sz": 1}, 0)

    def str_ctor(self, st, args, ins):
        self.ex.trusted.add("std::string contents are not tracked (strings only feed messages here)")
        self.str_init(st, args[0])
        return None

    def str_sret(self, st, args, ins):
        t = self.ex.T[ins["t"]]
        if t["k"] == "v":
            self.ex.trusted.add("std::string contents are not tracked (strings only feed messages here)")
            self.str_init(st, args[0])
            return None
        return self.ex.zero_of(t)

    # -------------------------------------------------------------- vc_*
    def inp(self, name, kind, e):
        ex = self.ex
        ex.inputs.append((name, kind, e))
        return e

    def newinput(self, st, args, kind, w):
        """Input names are numbered per path (like the native side)."""
        ex = self.ex
        base = self.cstr(st, args[0])
        cnt = dict(st.tag or {})
        k = cnt.get(base, 0)
        cnt[base] = k + 1
        st.tag = cnt
        name = base if k == 0 else "%s#%d" % (base, k)
        key = ("input", name, kind, w)
        if key not in ex.defs:
            if kind == "d":
                e = ex.sym_dbl(name)
            elif kind == "b":
                e = ex.hold(z3.Bool(name))
            else:
                e = ex.sym_int(name, w)
            ex.defs[key] = e
            ex.inputs.append((name, "%s%d" % (kind, w), e))
        e = ex.defs[key]
        return e

    def f_vc_sym_double(self, st, a, ins):
        ex = self.ex
        e = self.newinput(st, a, "d", 64)
        if ex.fp:
            ex.assume(st, z3.Not(z3.Or(z3.fpIsNaN(e), z3.fpIsInf(e))))
        return e

    def f_vc_sym_double_any(self, st, a, ins):
        return self.newinput(st, a, "d", 64)

    def f_vc_sym_u64(self, st, a, ins):
        return self.newinput(st, a, "i", 64)

    def f_vc_sym_u32(self, st, a, ins):
        return self.newinput(st, a, "i", 32)

    def f_vc_sym_u16(self, st, a, ins):
        return self.newinput(st, a, "i", 16)

    def f_vc_sym_u8(self, st, a, ins):
        return self.newinput(st, a, "i", 8)

    def f_vc_sym_bool(self, st, a, ins):
        return self.newinput(st, a, "b", 1)

    def tobool(self, c):
        return c

    def f_vc_do_assume(self, st, a, ins):
        ex = self.ex
        ex.assume(st, a[0] if not isinstance(a[0], int) else bool(a[0]))
        return None

    def f_vc_do_assert(self, st, a, ins):
        self.ex.oblige(st, self.cstr(st, a[1]), a[0])
        return None

    def f_vc_do_lemma(self, st, a, ins):
        ex = self.ex
        ex.oblige(st, self.cstr(st, a[1]), a[0])
        self.fact(st, a[0])
        return None

    def fact(self, st, c):
        """a discharged (or reported) obligation becomes a hypothesis"""
        ex = self.ex
        if is_sym(c):
            ex.lemma_ids.add(ex.hold(c).get_id())
            for x in (c.children() if z3.is_and(c) else ()):
                ex.lemma_ids.add(x.get_id())
            ex.assume(st, c)

    def f_vc_do_eqlemma(self, st, a, ins):
        ex = self.ex
        self.f_vc_do_eq(st, a, ins)
        x, y = a[0], a[1]
        if not ex.fp and not isinstance(x, Special) and not isinstance(y, Special) and (is_sym(x) or is_sym(y)):
            for e in (ex.rx(x), ex.rx(y)):
                if e.num_args():
                    ex.opaque_ids.add(ex.hold(e).get_id())
            self.fact(st, ex.rx(x) == ex.rx(y))
        return None

    def f_vc_do_eq(self, st, a, ins):
        ex = self.ex
        x, y, tol, lab = a
        lab = self.cstr(st, lab)
        if isinstance(x, Special) or isinstance(y, Special):
            ex.oblige(st, lab, isinstance(x, Special) and isinstance(y, Special) and x.k == y.k and x.k != "nan", "eq")
            return None
        if ex.fp:
            ex.oblige(st, lab, ex.fcmp(st, "oeq", x, y), "eq")
            return None
        if isinstance(x, Fraction) and isinstance(y, Fraction):
            # decimal constants may differ in the last digits
            ok = abs(x - y) <= Fraction(1, 10**12) * (1 + abs(x) + abs(y))
            ex.oblige(st, lab, ok, "eq")
            return None
        ex.oblige(st, lab, ex.rx(x) == ex.rx(y), "eq")
        return None

    def f_vc_do_le(self, st, a, ins):
        ex = self.ex
        x, y, tol, lab = a
        ex.oblige(st, self.cstr(st, lab), ex.fcmp(st, "ole", x, y), "le")
        return None

    def f_vc_do_cover(self, st, a, ins):
        ex = self.ex
        lab = self.cstr(st, a[0])
        if not ex.covers.get(lab):
            ex.covers[lab] = st.pc
        return None

    def f_vc_do_config(self, st, a, ins):
        self.ex.config(self.cstr(st, a[0]))
        self.cache.clear()
        return None

    def f_vc_symbolic(self, st, a, ins):
        return 1

    def f_vc_do_split(self, st, a, ins):
        """case split: returns a concrete integer equal to a[0] in [lo,hi]"""
        ex = self.ex
        x = a[0]
        if isinstance(x, int):
            return x
        lo, hi = signed(a[1], 64), signed(a[2], 64)
        if isinstance(x, Lin):
            x = ex.lin_expr(x)
        for i in range(lo, hi):
            if ex.decide(st, x == (i if ex.intmode else z3.BitVecVal(i, 64))):
                return unsigned(i, 64)
        if ex.decide(st, x == (hi if ex.intmode else z3.BitVecVal(hi, 64))):
            return unsigned(hi, 64)
        raise Unsupported("case split outside the stated range")

    def f_vc_sym_array(self, st, a, ins):
        """array of n elements, each field an uninterpreted function of the index"""
        ex = self.ex
        name = self.cstr(st, a[0])
        n, stride = a[1], a[2]
        fields = self.cstr(st, a[3])
        lay = {}
        for f in fields.split(","):
            off, k = f.split(":")
            if k == "d":
                lay[int(off)] = (8, {"k": "d", "sz": 8})
            else:
                w = int(k[1:])
                lay[int(off)] = (w // 8, {"k": "i", "w": w, "sz": w // 8})
        N = ex.to_lin(n)
        size = lin_scale(N, stride)
        oid = ex.new_obj(st, size, "heap", name)
        idxs = z3.IntSort() if ex.intmode else z3.BitVecSort(64)
        fns = {}
        for off, (sz, t) in lay.items():
            if t["k"] == "d":
                s = z3.Float64() if ex.fp else z3.RealSort()
            else:
                s = z3.IntSort() if ex.intmode else z3.BitVecSort(t["w"])
            fns[off] = z3.Function("%s@%d" % (name, off), idxs, s)
            ex.inputs.append(("%s@%d" % (name, off), "fun", fns[off]))

        def base(ex, st, x, f, sz, t):
            if x is None:
                return lay
            if f not in fns:
                raise Unsupported("field %s of array %s" % (f, name))
            if t["k"] == "i" and ex.intmode:
                e = ex.hold(fns[f](x))
                w = t["w"]
                ex.symrange[e.get_id()] = (-(1 << (w - 1)), (1 << (w - 1)) - 1, e)
                st.add(ex.hold(e >= -(1 << (w - 1))))
                st.add(ex.hold(e <= (1 << (w - 1)) - 1))
                return e
            return ex.hold(fns[f](x))
        o = ex.robj(st, oid)
        o.arr = SymArr(stride, N, base)
        return Ptr(oid, 0)

    # -------------------------------------------------------------- memory
    def alloc(self, st, a, ins):
        ex = self.ex
        n = a[0]
        if isinstance(n, int):
            if n > 1 << 40:
                raise _exc().Throw("_ZTISt9bad_alloc")
            return Ptr(ex.new_obj(st, n, "heap", "new"), 0)
        l = ex.to_lin(n)
        return Ptr(ex.new_obj(st, l, "heap", "new"), 0)

    def free(self, st, a, ins):
        ex = self.ex
        p = a[0]
        if isinstance(p, Ptr):
            o = ex.robj(st, p.o)
            if o.kind != "heap" or o.freed or p.off != 0:
                if o.kind == "heap":
                    ex.ub(st, "memory safety: invalid delete", False)
                return None
            w = ex.wobj(st, p.o)
            w.freed = True
            w.cells = {}
            w.arr = None
        return None

    def i_memcpy(self, st, a, w):
        self.ex.memcpy(st, a[0], a[1], a[2])

    i_memmove = i_memcpy

    def f_memcpy(self, st, a, ins):
        self.ex.memcpy(st, a[0], a[1], a[2])
        return a[0]

    f_memmove = f_memcpy

    def f_memcmp(self, st, a, ins):
        ex = self.ex
        n = a[2]
        if not isinstance(n, int):
            raise Unsupported("memcmp of symbolic length")
        B = {"k": "i", "w": 8, "sz": 1}
        for i in range(n):
            x = ex.load(st, ex.padd(a[0], i), B)
            y = ex.load(st, ex.padd(a[1], i), B)
            e = ex.icmp(st, "eq", x, y, 8, False)
            if not (ex.decide(st, e) if is_sym(e) else e):
                lt = ex.icmp(st, "ult", x, y, 8, False)
                return unsigned(-1, 32) if (ex.decide(st, lt) if is_sym(lt) else lt) else 1
        return 0

    def f_strlen(self, st, a, ins):
        ex = self.ex
        B = {"k": "i", "w": 8, "sz": 1}
        i = 0
        while True:
            x = ex.load(st, ex.padd(a[0], i), B)
            e = ex.icmp(st, "eq", x, 0, 8, False)
            if ex.decide(st, e) if is_sym(e) else e:
                return i
            i += 1

    def i_memset(self, st, a, w):
        self.ex.memset(st, a[0], a[1], a[2])

    def f_memset(self, st, a, ins):
        self.ex.memset(st, a[0], a[1], a[2])
        return a[0]

    def f___cxa_guard_acquire(self, st, a, ins):
        ex = self.ex
        v = ex.load(st, a[0], {"k": "i", "w": 8, "sz": 1})
        return 1 if v == 0 else 0

    def f___cxa_guard_release(self, st, a, ins):
        self.ex.store(st, a[0], {"k": "i", "w": 8, "sz": 1}, 1)

    def f___cxa_guard_abort(self, st, a, ins):
        return None

    def f_atexit(self, st, a, ins):
        return 0

    f___cxa_atexit = f_atexit

    def f___cxa_begin_catch(self, st, a, ins):
        return a[0]

    def f___cxa_end_catch(self, st, a, ins):
        return None

    def f___cxa_free_exception(self, st, a, ins):
        return None

    def f___cxa_allocate_exception(self, st, a, ins):
        ex = self.ex
        return Ptr(ex.new_obj(st, a[0], "heap", "exception"), 0)

    def f___cxa_throw(self, st, a, ins):
        ti = ins["ops"][1].get("v", "?") if ins else "?"
        raise _exc().Throw(ti, a[0])

    def f___cxa_rethrow(self, st, a, ins):
        raise Unsupported("rethrow")

    def f__ZSt9terminatev(self, st, a, ins):
        self.ex.oblige(st, "std::terminate reached", False, "safety")
        raise _exc().PathEnd()

    def f_abort(self, st, a, ins):
        self.ex.oblige(st, "abort reached", False, "safety")
        raise _exc().PathEnd()

    f___clang_call_terminate = f__ZSt9terminatev

    def f___cxa_pure_virtual(self, st, a, ins):
        self.ex.oblige(st, "pure virtual call", False, "safety")
        raise _exc().PathEnd()

    def f_exit(self, st, a, ins):
        raise _exc().PathEnd()

    def f___dynamic_cast(self, st, a, ins):
        ex = self.ex
        p = a[0]
        if p == 0:
            return 0
        vp = ex.load(st, p, {"k": "p", "sz": 8})
        o = ex.robj(st, vp.o)
        ti = o.cells.get(vp.off - 8)
        tn = ex.robj(st, ti.v.o).name
        dst = ex.robj(st, a[2].o).name
        return p if ex.ti_matches(tn, dst) else 0

    # -------------------------------------------------------------- intrinsics
    def i_expect(self, st, a, w):
        return a[0]

    def i_assume(self, st, a, w):
        return None

    def i_is_constant(self, st, a, w):
        return 0

    def i_objectsize(self, st, a, w):
        return unsigned(-1, 64)

    def i_trap(self, st, a, w):
        self.ex.oblige(st, "trap reached", False, "safety")
        raise _exc().PathEnd()

    def i_launder_invariant_group(self, st, a, w):
        return a[0]

    i_strip_invariant_group = i_launder_invariant_group

    def i_stacksave(self, st, a, w):
        return 0

    def i_stackrestore(self, st, a, w):
        return None

    def i_experimental_noalias_scope_decl(self, st, a, w):
        return None

    def i_invariant_start(self, st, a, w):
        return 0

    def i_invariant_end(self, st, a, w):
        return None

    def i_va_start(self, st, a, w):
        return None

    i_va_end = i_va_start

    def i_prefetch(self, st, a, w):
        return None

    def ovf(self, st, op, sg, a, w):
        ex = self.ex
        x, y = a[0], a[1]
        if isinstance(x, int) and isinstance(y, int):
            X, Y = (signed(x, w), signed(y, w)) if sg else (x, y)
            r = {"add": X + Y, "sub": X - Y, "mul": X * Y}[op]
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
            return (unsigned(r, w), int(not lo <= r <= hi))
        if ex.intmode:
            X, Y = ex.sx(x, w), ex.sx(y, w)
            if not sg:
                X, Y = ex.uns(st, x, w), ex.uns(st, y, w)
            r = {"add": lambda: X + Y, "sub": lambda: X - Y, "mul": lambda: X * Y}[op]()
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
            r = ex.hold(z3.simplify(r)) if is_sym(r) else r
            il, ih = ex.ival(st, r)
            if il >= lo and ih <= hi:
                return (ex.wrap(st, r, w), 0)
            if ex.decide(st, z3.And(r >= lo, r <= hi)):
                return (ex.wrap(st, r, w), 0)
            return (ex.wrap(st, r, w), 1)
        if op == "mul" and (isinstance(x, Lin) or isinstance(y, Lin) or isinstance(y, int)):
            # element count times element size
            r = ex.binop(st, {}, "mul", x, y, w)
        else:
            r = ex.binop(st, {}, op, x, y, w)
        X, Y = ex.bv(x, w), ex.bv(y, w)
        if op == "add":
            ok = z3.BVAddNoOverflow(X, Y, sg)
            if sg:
                ok = z3.And(ok, z3.BVAddNoUnderflow(X, Y))
        elif op == "sub":
            ok = z3.And(z3.BVSubNoOverflow(X, Y), z3.BVSubNoUnderflow(X, Y, True)) if sg else z3.UGE(X, Y)
        else:
            ok = z3.BVMulNoOverflow(X, Y, sg)
            if sg:
                ok = z3.And(ok, z3.BVMulNoUnderflow(X, Y))
        return (r, ex.b1(z3.Not(ok)))

    def i_uadd_with_overflow(self, st, a, w):
        return self.ovf(st, "add", False, a, w)

    def i_usub_with_overflow(self, st, a, w):
        return self.ovf(st, "sub", False, a, w)

    def i_umul_with_overflow(self, st, a, w):
        return self.ovf(st, "mul", False, a, w)

    def i_sadd_with_overflow(self, st, a, w):
        return self.ovf(st, "add", True, a, w)

    def i_ssub_with_overflow(self, st, a, w):
        return self.ovf(st, "sub", True, a, w)

    def i_smul_with_overflow(self, st, a, w):
        return self.ovf(st, "mul", True, a, w)

    def minmax(self, st, a, w, pred):
        ex = self.ex
        c = ex.icmp(st, pred, a[0], a[1], w, False)
        if not is_sym(c):
            return a[0] if c else a[1]
        return ex.ite(st, c, a[0], a[1], {"k": "i", "w": w})

    def i_smax(self, st, a, w):
        return self.minmax(st, a, w, "sge")

    def i_smin(self, st, a, w):
        return self.minmax(st, a, w, "sle")

    def i_umax(self, st, a, w):
        return self.minmax(st, a, w, "uge")

    def i_umin(self, st, a, w):
        return self.minmax(st, a, w, "ule")

    def i_abs(self, st, a, w):
        ex = self.ex
        x = a[0]
        if isinstance(x, int):
            return unsigned(abs(signed(x, w)), w)
        if isinstance(x, Lin):
            x = ex.lin_expr(x)
        if ex.intmode:
            if ex.decide(st, x >= 0):
                return x
            return ex.wrap(st, -x, w, True)
        return ex.i(z3.If(x < 0, -x, x))

    def f_abs(self, st, a, ins):
        return self.i_abs(st, a, 32)

    def f_labs(self, st, a, ins):
        return self.i_abs(st, a, 64)

    def i_ctpop(self, st, a, w):
        ex = self.ex
        x = a[0]
        if isinstance(x, int):
            return bin(x).count("1")
        r = z3.BitVecVal(0, w)
        for i in range(w):
            r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, x))
        return ex.i(r)

    def i_ctlz(self, st, a, w):
        x = a[0]
        if isinstance(x, int):
            return w - x.bit_length()
        ex = self.ex
        r = z3.BitVecVal(w, w)
        for i in range(w):
            r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(w - 1 - i, w), r)
        return ex.i(r)

    def i_cttz(self, st, a, w):
        x = a[0]
        if isinstance(x, int):
            return w if x == 0 else (x & -x).bit_length() - 1
        ex = self.ex
        r = z3.BitVecVal(w, w)
        for i in reversed(range(w)):
            r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(i, w), r)
        return ex.i(r)

    def i_bswap(self, st, a, w):
        x = a[0]
        if isinstance(x, int):
            return int.from_bytes(x.to_bytes(w // 8, "little"), "big")
        return self.ex.i(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, x) for i in range(w // 8)]))

    def i_fshl(self, st, a, w):
        ex = self.ex
        x, y, s = a
        if isinstance(s, int):
            s %= w
            if s == 0:
                return x
            if isinstance(x, int) and isinstance(y, int):
                return ((x << s) | (y >> (w - s))) & ((1 << w) - 1)
            X, Y = ex.bv(x, w), ex.bv(y, w)
            return ex.i(z3.Concat(z3.Extract(w - 1 - s, 0, X), z3.Extract(w - 1, w - s, Y)))
        raise Unsupported("fshl by symbolic amount")

    def i_fshr(self, st, a, w):
        x, y, s = a
        if isinstance(s, int):
            s %= w
            if s == 0:
                return y
            return self.i_fshl(st, [x, y, w - s], w)
        raise Unsupported("fshr by symbolic amount")

    def i_usub_sat(self, st, a, w):
        ex = self.ex
        c = ex.icmp(st, "uge", a[0], a[1], w, False)
        d = ex.binop(st, {}, "sub", a[0], a[1], w)
        if not is_sym(c):
            return d if c else 0
        return ex.ite(st, c, d, 0, {"k": "i", "w": w})

    # -------------------------------------------------------------- floats
    def i_fabs(self, st, a, w):
        return self.ex.fabs(st, a[0])

    def f_fabs(self, st, a, ins):
        return self.ex.fabs(st, a[0])

    def i_sqrt(self, st, a, w):
        return self.ex.sqrt(st, a[0])

    def f_sqrt(self, st, a, ins):
        return self.ex.sqrt(st, a[0])

    def f_hypot(self, st, a, ins):
        ex = self.ex
        return ex.sqrt(st, ex.fbin(st, "fadd", ex.fbin(st, "fmul", a[0], a[0]), ex.fbin(st, "fmul", a[1], a[1])))

    def i_fmuladd(self, st, a, w):
        ex = self.ex
        return ex.fbin(st, "fadd", ex.fbin(st, "fmul", a[0], a[1]), a[2])

    def i_fma(self, st, a, w):
        ex = self.ex
        if ex.fp:
            return ex.hold(z3.fpFMA(z3.RNE(), ex.fpx(a[0]), ex.fpx(a[1]), ex.fpx(a[2])))
        return self.i_fmuladd(st, a, w)

    def i_copysign(self, st, a, w):
        ex = self.ex
        m, s = a
        if ex.fp:
            if isinstance(m, float) and isinstance(s, float):
                return math.copysign(m, s)
            S = ex.fpx(s)
            return ex.hold(z3.If(z3.fpIsNegative(S), z3.fpNeg(z3.fpAbs(ex.fpx(m))), z3.fpAbs(ex.fpx(m))))
        am = ex.fabs(st, m)
        neg = ex.fcmp(st, "olt", s, Fraction(0))
        if is_sym(neg):
            neg = ex.decide(st, neg)
        return ex.fneg(am) if neg else am

    f_copysign = lambda self, st, a, ins: self.i_copysign(st, a, 64)

    def fminmax(self, st, a, pred):
        ex = self.ex
        x, y = a
        if isinstance(x, Special) and x.k == "nan":
            return y
        if isinstance(y, Special) and y.k == "nan":
            return x
        if ex.fp:
            return ex.hold((z3.fpMin if pred == "ole" else z3.fpMax)(ex.fpx(x), ex.fpx(y)))
        c = ex.fcmp(st, pred, x, y)
        if is_sym(c):
            c = ex.decide(st, c)
        return x if c else y

    def i_minnum(self, st, a, w):
        return self.fminmax(st, a, "ole")

    def i_maxnum(self, st, a, w):
        return self.fminmax(st, a, "oge")

    f_fmin = lambda self, st, a, ins: self.fminmax(st, a, "ole")
    f_fmax = lambda self, st, a, ins: self.fminmax(st, a, "oge")

    def rnd(self, st, x, kind):
        ex = self.ex
        if isinstance(x, Special):
            return x
        if isinstance(x, (Fraction, float)):
            if isinstance(x, float) and (x != x or abs(x) == float("inf")):
                return x
            if kind == "floor":
                r = math.floor(x)
            elif kind == "ceil":
                r = math.ceil(x)
            elif kind == "trunc":
                r = math.trunc(x)
            elif kind == "rint":
                r = round(x)
            else:
                r = math.floor(abs(x) + (Fraction(1, 2) if isinstance(x, Fraction) else 0.5))
                if isinstance(x, float):
                    fx = Fraction(abs(x))
                    r = math.floor(fx + Fraction(1, 2))
                r = -r if x < 0 else r
            return float(r) if ex.fp else Fraction(r)
        if ex.fp:
            rm = {"floor": z3.RTN(), "ceil": z3.RTP(), "trunc": z3.RTZ(), "round": z3.RNA(), "rint": z3.RNE()}[kind]
            return ex.hold(z3.fpRoundToIntegral(rm, x))
        if kind == "floor":
            n = ex.floorr(st, x)
            return ex.r(z3.ToReal(n))
        if kind == "ceil":
            n = ex.floorr(st, -x)
            return ex.r(-z3.ToReal(n))
        if kind == "trunc":
            return ex.r(z3.ToReal(ex.truncr(st, x)))
        if kind == "rint":
            raise Unsupported("rint of a symbolic real")
        # round half away from zero
        half = z3.RealVal(Fraction(1, 2))
        if ex.decide(st, x >= 0):
            return ex.r(z3.ToReal(ex.floorr(st, x + half)))
        return ex.r(-z3.ToReal(ex.floorr(st, half - x)))

    def i_floor(self, st, a, w):
        return self.rnd(st, a[0], "floor")

    def i_ceil(self, st, a, w):
        return self.rnd(st, a[0], "ceil")

    def i_trunc(self, st, a, w):
        return self.rnd(st, a[0], "trunc")

    def i_round(self, st, a, w):
        return self.rnd(st, a[0], "round")

    def i_rint(self, st, a, w):
        return self.rnd(st, a[0], "rint")

    i_nearbyint = i_rint
    f_floor = lambda self, st, a, ins: self.rnd(st, a[0], "floor")
    f_ceil = lambda self, st, a, ins: self.rnd(st, a[0], "ceil")
    f_trunc = lambda self, st, a, ins: self.rnd(st, a[0], "trunc")
    f_round = lambda self, st, a, ins: self.rnd(st, a[0], "round")
    f_rint = lambda self, st, a, ins: self.rnd(st, a[0], "rint")
    f_nearbyint = f_rint

    def toint(self, kind, w):
        def h(st, a, ins):
            ex = self.ex
            return ex.fp2int(st, self.rnd(st, a[0], kind), w, True)
        return h

    def f_lround(self, st, a, ins):
        return self.toint("round", 64)(st, a, ins)

    f_llround = f_lround

    def i_lround(self, st, a, w):
        return self.toint("round", 64)(st, a, None)

    i_llround = i_lround

    def f_lrint(self, st, a, ins):
        return self.toint("rint", 64)(st, a, ins)

    def f_fmod(self, st, a, ins):
        return self.ex.fbin(st, "frem", a[0], a[1])

    def f_remainder(self, st, a, ins):
        raise Unsupported("remainder")

    def f_nextafter(self, st, a, ins):
        x, y = a
        if isinstance(x, float) and isinstance(y, float):
            return math.nextafter(x, y)
        if isinstance(x, Fraction) and isinstance(y, Fraction):
            return self.ex.cf(math.nextafter(float(x), float(y)))
        ex = self.ex
        if is_sym(x) and not ex.fp and isinstance(y, Fraction) and y == 0:
            # towards zero: less by at most one part in 2^52
            r = ex.hold(z3.Real(ex.fresh("nextafter")))
            st.add(z3.Or(z3.And(x > 0, r < x, r >= x * z3.RealVal(1 - Fraction(1, 1 << 52))),
                         z3.And(x < 0, r > x, r <= x * z3.RealVal(1 - Fraction(1, 1 << 52))), z3.And(x == 0, r == 0)))
            ex.trusted.add("nextafter(x, 0): smaller in magnitude by at most one part in 2^52")
            return r
        raise Unsupported("nextafter")

    def i_is_fpclass(self, st, a, w):
        ex = self.ex
        x, m = a
        if ex.fp:
            X = ex.fpx(x)
            tests = []
            neg = z3.fpIsNegative(X)
            if m & 3:
                tests.append(z3.fpIsNaN(X))
            for bit, c, n in ((4, z3.fpIsInf, True), (8, z3.fpIsNormal, True), (16, z3.fpIsSubnormal, True),
                              (32, z3.fpIsZero, True), (64, z3.fpIsZero, False), (128, z3.fpIsSubnormal, False),
                              (256, z3.fpIsNormal, False), (512, z3.fpIsInf, False)):
                if m & bit:
                    tests.append(z3.And(c(X), neg if n else z3.Not(neg)))
            return ex.b1(z3.Or(*tests))
        if isinstance(x, Special):
            b = {"nan": 3, "inf": 512, "-inf": 4}[x.k]
            return int(bool(m & b))
        # finite numbers; zero/normal/subnormal are not distinguished
        fin = m & 0x1F8
        if fin == 0x1F8:
            return 1
        if fin == 0:
            return 0
        if fin == 8 | 256:
            r = ex.fcmp(st, "one", x, Fraction(0))
            return r
        raise Unsupported("is.fpclass %d" % m)

    def mathfn(self, name):
        def h(st, a, ins):
            return self.math(st, name, a[0])
        return h

    def uf(self, name, n=1):
        s = z3.Float64() if self.ex.fp else z3.RealSort()
        return z3.Function(name, *([s] * (n + 1)))

    EXACT0 = {"sin": 0, "tan": 0, "asin": 0, "atan": 0, "sinh": 0, "tanh": 0, "asinh": 0, "atanh": 0, "erf": 0, "cbrt": 0,
              "cos": 1, "cosh": 1, "exp": 1, "erfc": 1, "log1p": 0, "expm1": 0, "exp2": 1}

    def math(self, st, name, x):
        ex = self.ex
        if isinstance(x, Undef):
            x = Fraction(0)
        if isinstance(x, Special):
            tab = {("exp", "inf"): INF, ("exp", "-inf"): Fraction(0), ("tanh", "inf"): Fraction(1), ("tanh", "-inf"): Fraction(-1),
                   ("log", "inf"): INF, ("cosh", "inf"): INF, ("cosh", "-inf"): INF, ("sinh", "inf"): INF, ("sinh", "-inf"): NINF,
                   ("erf", "inf"): Fraction(1), ("erf", "-inf"): Fraction(-1)}
            return tab.get((name, x.k), NAN)
        if not is_sym(x):
            if x == 0 and name in self.EXACT0:
                return ex.cf(float(self.EXACT0[name]))
            try:
                if name == "cbrt":
                    v = math.copysign(abs(float(x)) ** (1 / 3.), float(x))
                    if not ex.fp:
                        return ex.cf(v)
                else:
                    fn = {"tgamma": math.gamma}.get(name) or getattr(math, name)
                    v = fn(float(x))
                ex.trusted.add("libm constants are evaluated by the host libm")
                return ex.cf(v)
            except (ValueError, OverflowError):
                if name == "log" and x == 0:
                    return NINF if not ex.fp else float("-inf")
                return NAN if not ex.fp else float("nan")
        if ex.fp:
            return ex.hold(self.uf(name)(x))
        x = z3.simplify(x)
        ex.hold(x)
        if name in ("log", "log10", "log2"):
            if not ex.decide(st, x > 0):
                return NINF if ex.decide(st, x == 0) else NAN
        if name in ("asin", "acos"):
            if not ex.decide(st, z3.And(x >= -1, x <= 1)):
                return NAN
        if name == "acosh" and not ex.decide(st, x >= 1):
            return NAN
        if name == "atanh" and not ex.decide(st, z3.And(x > -1, x < 1)):
            return NAN
        if name == "log1p" and not ex.decide(st, x > -1):
            return NAN
        # inverse pairs
        inv = ex.defs.get(("inv", name, x.get_id()))
        if inv is not None:
            return inv
        key = ("uf", name, x.get_id())
        if key in ex.defs:
            y, cs = ex.defs[key]
        else:
            f = self.uf("m_" + name)
            y = ex.hold(f(x))
            cs = []
            A = cs.append
            if name == "exp":
                A(y > 0)
                A(z3.Implies(x <= 0, y <= 1))
                A(z3.Implies(x >= 0, y >= 1))
                ex.defs[("inv", "log", y.get_id())] = x
            elif name in ("sin", "cos"):
                s, c = self.uf("m_sin")(x), self.uf("m_cos")(x)
                ex.hold(s)
                ex.hold(c)
                A(s * s + c * c == 1)
                A(s <= 1)
                A(s >= -1)
                A(c <= 1)
                A(c >= -1)
                ex.defs.setdefault("trig", []).append((s, c))
            elif name == "acos":
                A(y >= 0)
                A(y <= z3.RealVal("3.14159265358979323847"))
                cx, sx = self.uf("m_cos")(y), self.uf("m_sin")(y)
                A(cx == x)
                A(sx >= 0)
                A(sx * sx == 1 - x * x)
                ex.defs[("inv", "cos", y.get_id())] = x
            elif name == "asin":
                cx, sx = self.uf("m_cos")(y), self.uf("m_sin")(y)
                A(sx == x)
                A(cx >= 0)
                A(cx * cx == 1 - x * x)
                ex.defs[("inv", "sin", y.get_id())] = x
            elif name == "tanh":
                A(y < 1)
                A(y > -1)
                A(z3.Implies(x > 0, y > 0))
                A(z3.Implies(x < 0, y < 0))
            elif name in ("cosh", "sinh"):
                s, c = self.uf("m_sinh")(x), self.uf("m_cosh")(x)
                A(c * c == 1 + s * s)
                A(c >= 1)
                A(z3.Implies(x > 0, s > 0))
                A(z3.Implies(x < 0, s < 0))
                A(z3.Implies(x == 0, s == 0))
            elif name == "asinh":
                A(self.uf("m_sinh")(y) == x)
                ex.defs[("inv", "sinh", y.get_id())] = x
            elif name == "cbrt":
                A(y * y * y == x)
                A(z3.Implies(x >= 0, y >= 0))
                A(z3.Implies(x <= 0, y <= 0))
            elif name == "atan":
                A(y <= z3.RealVal("1.5707963267948966193"))
                A(y >= z3.RealVal("-1.5707963267948966193"))
                A(z3.Implies(x > 0, y > 0))
                A(z3.Implies(x < 0, y < 0))
            elif name == "erf":
                A(y <= 1)
                A(y >= -1)
            elif name == "log":
                A(self.uf("m_exp")(y) == x)
                ex.defs[("inv", "exp", y.get_id())] = x
            for c in cs:
                ex.hold(c)
            ex.defs[key] = (y, cs)
            ex.trusted.add("libm %s: uninterpreted, with its textbook range/inverse/Pythagoras axioms" % name)
        for c in cs:
            st.add(c)
        return y

    def f_atan2(self, st, a, ins):
        ex = self.ex
        y, x = a
        if not is_sym(y) and not is_sym(x):
            return ex.cf(math.atan2(float(y), float(x)))
        if ex.fp:
            return ex.hold(self.uf("atan2", 2)(ex.fpx(y), ex.fpx(x)))
        Y, X = ex.rx(y), ex.rx(x)
        key = ("atan2", Y.get_id(), X.get_id())
        if key not in ex.defs:
            r = ex.hold(self.uf("m_atan2", 2)(Y, X))
            h = ex.hold(z3.Real(ex.fresh("r")))
            c, s = self.uf("m_cos")(r), self.uf("m_sin")(r)
            pi = z3.RealVal("3.14159265358979323847")
            cs = [h >= 0, h * h == X * X + Y * Y, c * h == X, s * h == Y, c * c + s * s == 1, r <= pi, r >= -pi]
            for q in cs:
                ex.hold(q)
            ex.defs[key] = (r, cs)
            ex.trusted.add("libm atan2: uninterpreted, with r*cos=x, r*sin=y, |.|<=pi")
        r, cs = ex.defs[key]
        for c in cs:
            st.add(c)
        return r

    def f_sincos(self, st, a, ins):
        ex = self.ex
        D = {"k": "d", "sz": 8}
        s = self.math(st, "sin", a[0])
        c = self.math(st, "cos", a[0])
        ex.store(st, a[1], D, s)
        ex.store(st, a[2], D, c)

    def pow(self, st, x, y):
        ex = self.ex
        if not is_sym(x) and not is_sym(y) and not isinstance(x, Special) and not isinstance(y, Special):
            if isinstance(x, Fraction) and isinstance(y, Fraction) and y.denominator == 1 and abs(y) <= 64 and (x != 0 or y >= 0):
                return x ** int(y)
            try:
                v = math.pow(float(x), float(y))
                return ex.cf(v)
            except (ValueError, OverflowError):
                return NAN if not ex.fp else float("nan")
        if isinstance(x, Special) or isinstance(y, Special):
            raise Unsupported("pow of a special value")
        if not ex.fp and isinstance(y, Fraction):
            if y.denominator == 1 and abs(y) <= 8:
                n = int(y)
                r = Fraction(1)
                for _ in range(abs(n)):
                    r = ex.fbin(st, "fmul", r, x)
                return r if n >= 0 else ex.fbin(st, "fdiv", Fraction(1), r)
            if y == Fraction(1, 2):
                return ex.sqrt(st, x)
            if y == Fraction(3, 2):
                return ex.fbin(st, "fmul", x, ex.sqrt(st, x))
        if ex.fp:
            return ex.hold(self.uf("pow", 2)(ex.fpx(x), ex.fpx(y)))
        X, Y = ex.rx(x), ex.rx(y)
        if not ex.decide(st, X > 0):
            if isinstance(y, Fraction) and y > 0 and ex.decide(st, X == 0):
                return Fraction(0)
            raise Unsupported("pow of a possibly negative base")
        X, Y = z3.simplify(X), z3.simplify(Y)
        key = ("pow", X.get_id(), Y.get_id())
        if key not in ex.defs:
            ex.hold(X)
            ex.hold(Y)
            r = ex.hold(self.uf("m_pow", 2)(X, Y))
            cs = [ex.hold(r > 0), ex.hold(z3.Implies(X == 1, r == 1)),
                  ex.hold(z3.Implies(Y > 0, z3.And((X < 1) == (r < 1), (X > 1) == (r > 1))))]
            same = ex.defs.setdefault(("pows", Y.get_id()), [])
            for X2, r2 in same[-6:]:
                cs.append(ex.hold(z3.Implies(Y > 0, z3.And((X < X2) == (r < r2), (X > X2) == (r > r2)))))
            same.append((X, r))
            ex.defs[key] = (r, cs)
            ex.trusted.add("libm pow with a non-integer exponent: uninterpreted, positive and increasing on positive bases for positive exponents, 1 at 1")
        r, cs = ex.defs[key]
        for c in cs:
            st.add(c)
        return r

    def f_pow(self, st, a, ins):
        return self.pow(st, a[0], a[1])

    def i_pow(self, st, a, w):
        return self.pow(st, a[0], a[1])

    def i_powi(self, st, a, w):
        return self.pow(st, a[0], Fraction(signed(a[1], 32)))

    # -------------------------------------------------------------- random
    def canonical(self, st, a, ins):
        ex = self.ex
        cnt = dict(st.tag or {})
        k = cnt.get("rnd", 0)
        cnt["rnd"] = k + 1
        st.tag = cnt
        return self.draw(st, k)

    # the k-th number the next calls of canonical will return
    def f_vc_sym_draw(self, st, a, ins):
        return self.draw(st, (st.tag or {}).get("rnd", 0) + a[0])

    def draw(self, st, k):
        ex = self.ex
        name = "rnd" if k == 0 else "rnd#%d" % k
        key = ("input", name)
        if key not in ex.defs:
            ex.defs[key] = ex.sym_dbl(name)
            ex.inputs.append((name, "d64", ex.defs[key]))
        e = ex.defs[key]
        ex.trusted.add("std::generate_canonical returns an arbitrary value in [0,1)")
        if ex.fp:
            st.add(ex.hold(z3.fpGEQ(e, z3.FPVal(0.0, z3.Float64()))))
            st.add(ex.hold(z3.fpLT(e, z3.FPVal(1.0, z3.Float64()))))
        else:
            st.add(ex.hold(e >= 0))
            st.add(ex.hold(e < 1))
        return e

    def rawrandom(self, st, a, ins):
        ex = self.ex
        cnt = dict(st.tag or {})
        k = cnt.get("rndraw", 0)
        cnt["rndraw"] = k + 1
        st.tag = cnt
        name = "rndraw" if k == 0 else "rndraw#%d" % k
        key = ("input", name)
        if key not in ex.defs:
            ex.defs[key] = ex.sym_int(name, 64)
            ex.inputs.append((name, "i64", ex.defs[key]))
        ex.trusted.add("std::mersenne_twister_engine returns arbitrary 64-bit values")
        return ex.defs[key]

    # misc libc / libstdc++
    def f__ZNSt8ios_base4InitC1Ev(self, st, a, ins):
        return None

    def f__ZNSt8ios_base4InitD1Ev(self, st, a, ins):
        return None

    def f_time(self, st, a, ins):
        return 0
