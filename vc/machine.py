"""Memory, control flow and calls on top of execu.Exec."""
import sys
import time
from .execu import *
from .values import *


class Machine(Exec):
    def __init__(self, module):
        super().__init__(module)
        self.prep()

    def prep(self):
        self.loopinfo = {}
        for name, f in self.F.items():
            if f["decl"]:
                continue
            li = {}
            for l in f.get("loops", []):
                li[l["header"]] = (frozenset(l["blocks"]), l["depth"])
            self.loopinfo[name] = li
        # exception type hierarchy from type infos in the module
        self.tibase = {}
        for g, o in self.G.items():
            if g.startswith("_ZTI") and "init" in o:
                bases = []
                init = o["init"]
                for e in init.get("e", [])[2:]:
                    self._ti_refs(e, bases)
                self.tibase[g] = bases

    def _ti_refs(self, e, out):
        if isinstance(e, dict):
            if e.get("k") == "g" and e["v"].startswith("_ZTI"):
                out.append(e["v"])
            for x in e.get("e", []) or []:
                self._ti_refs(x, out)
            if "base" in e:
                self._ti_refs(e["base"], out)

    STDBASE = {
        "_ZTISt13runtime_error": ["_ZTISt9exception"], "_ZTISt11logic_error": ["_ZTISt9exception"],
        "_ZTISt16invalid_argument": ["_ZTISt11logic_error"], "_ZTISt12out_of_range": ["_ZTISt11logic_error"],
        "_ZTISt12length_error": ["_ZTISt11logic_error"], "_ZTISt12domain_error": ["_ZTISt11logic_error"],
        "_ZTISt11range_error": ["_ZTISt13runtime_error"], "_ZTISt14overflow_error": ["_ZTISt13runtime_error"],
        "_ZTISt15underflow_error": ["_ZTISt13runtime_error"], "_ZTISt9bad_alloc": ["_ZTISt9exception"],
        "_ZTISt17bad_function_call": ["_ZTISt9exception"], "_ZTISt8bad_cast": ["_ZTISt9exception"],
    }

    def ti_matches(self, thrown, handler):
        if thrown == handler:
            return True
        for b in self.tibase.get(thrown) or self.STDBASE.get(thrown, []):
            if self.ti_matches(b, handler):
                return True
        return False

    # ------------------------------------------------------------- globals
    def global_ptr(self, name):
        a = self.aliases.get(name)
        if a:
            return self.const(a)
        oid = self.gobj.get(name)
        if oid is None:
            self.nobj += 1
            oid = self.nobj
            self.gobj[name] = oid
            g = self.G[name]
            t = self.T[g["t"]]
            o = Obj(t["sz"], "global", name, None, False)
            self.base[oid] = o
            if "init" in g:
                o.zero = True
                self.init_cells(o, 0, g["init"])
            else:
                o.kind = "extern"
                if t["sz"] == 0:
                    o.size = None
        return Ptr(oid, 0)

    def init_cells(self, o, off, c):
        t = self.T[c["t"]]
        k = c["k"]
        if k in ("zero", "undef", "poison"):
            return
        if k == "bytes":
            for i in range(0, len(c["v"]), 2):
                b = int(c["v"][i:i + 2], 16)
                o.cells[off + i // 2] = Cell(1, b)
            return
        if k == "agg":
            if t["k"] == "s":
                for i, e in enumerate(c["e"]):
                    self.init_cells(o, off + t["o"][i], e)
            else:
                es = self.T[t["e"]]["sz"]
                for i, e in enumerate(c["e"]):
                    self.init_cells(o, off + i * es, e)
            return
        v = self.const(c)
        o.cells[off] = Cell(self.tsize(t), v)

    def tsize(self, t):
        if t["k"] == "i":
            return (t["w"] + 7) // 8
        if t["k"] == "x":
            return 10
        return t["sz"]

    # ------------------------------------------------------------- constants
    def const(self, c):
        k = c["k"]
        if k == "int":
            if "vs" in c:
                return int(c["vs"]) & ((1 << self.T[c["t"]]["w"]) - 1)
            return unsigned(c["v"], self.T[c["t"]]["w"])
        if k == "fp":
            return self.fpconst(c["v"])
        if k == "null":
            return 0
        if k in ("undef", "poison"):
            t = self.T[c["t"]]
            if t["k"] == "s":
                return tuple(UNDEF for _ in t["f"])
            if t["k"] == "a":
                return tuple(UNDEF for _ in range(t["n"]))
            return UNDEF
        if k == "zero":
            return self.zero_of(self.T[c["t"]])
        if k == "fn":
            return FnPtr(c["v"])
        if k == "g":
            return self.global_ptr(c["v"])
        if k == "gep":
            b = self.const(c["base"])
            if isinstance(b, Ptr):
                return Ptr(b.o, b.off + c["off"])
            if isinstance(b, int):
                return b + c["off"]
            raise Unsupported("gep on function")
        if k == "agg":
            return tuple(self.const(e) for e in c["e"])
        if k == "bytes":
            return tuple(bytes.fromhex(c["v"]))
        if k == "ce":
            op = c["op"]
            if op in ("bitcast", "ptrtoint", "inttoptr"):
                return self.const(c["e"][0])
            a = [self.const(x) for x in c["e"]]
            w = self.T[c["t"]].get("w", 64)
            if op in ("sub", "add") and len(a) == 2:
                if isinstance(a[0], Ptr) or isinstance(a[1], Ptr):
                    return self.ptrbin(None, op, a[0], a[1], w)
                return self.cbin(None, {}, op, a[0], a[1], w)
            raise Unsupported("constant expression " + op)
        raise Unsupported("constant " + k)

    def fpconst(self, s):
        if s == "nan":
            return float("nan") if self.fp else NAN
        if s == "inf":
            return self.cf(float("inf"))
        if s == "-inf":
            return self.cf(float("-inf"))
        if s.startswith("D"):
            return Fraction(s[1:])
        return self.cf(float.fromhex(s))

    def zero_of(self, t):
        k = t["k"]
        if k == "s":
            return tuple(self.zero_of(self.T[x]) for x in t["f"])
        if k == "a":
            return tuple(self.zero_of(self.T[t["e"]]) for _ in range(t["n"]))
        if k in "dfx":
            return 0.0 if self.fp else Fraction(0)
        return 0

    # ------------------------------------------------------------- memory
    def deref(self, st, p, what):
        if isinstance(p, Undef):
            self.ub(st, "memory safety: %s through uninitialised pointer" % what, False)
        if isinstance(p, int):
            self.ub(st, "memory safety: %s through null pointer" % what, False)
        if not isinstance(p, Ptr):
            raise Unsupported("%s through %r" % (what, p))
        o = self.robj(st, p.o)
        if o.freed:
            self.ub(st, "memory safety: %s after free" % what, False)
        return o

    def load(self, st, p, t):
        k = t["k"]
        if k == "s":
            return tuple(self.load(st, self.padd(p, t["o"][i]), self.T[f]) for i, f in enumerate(t["f"]))
        if k == "a":
            es = self.T[t["e"]]["sz"]
            return tuple(self.load(st, self.padd(p, i * es), self.T[t["e"]]) for i in range(t["n"]))
        o = self.deref(st, p, "load")
        off = p.off
        sz = self.tsize(t)
        if o.arr is not None:
            return self.arr_load(st, p, o, off, sz, t)
        if isinstance(off, Lin):
            return self.load_sym(st, p, o, off, sz, t)
        c = o.cells.get(off)
        if c is not None and c.sz == sz:
            return self.conv(st, c.v, t)
        if o.size is not None:
            if isinstance(o.size, int):
                if not 0 <= off <= o.size - sz:
                    self.ub(st, "memory safety: load out of bounds", False)
            else:
                self.size_check(st, o, off, sz, "load")
        return self.load_slow(st, p.o, o, off, sz, t)

    def size_check(self, st, o, off, sz, what):
        s = self.lin_expr(o.size) if isinstance(o.size, Lin) else o.size
        x = self.lin_expr(off) if isinstance(off, Lin) else off
        self.ub(st, "memory safety: %s out of bounds" % what, z3.And(s - (x + sz) >= 0, (x if is_sym(x) else z3.IntVal(x) if self.intmode else z3.BitVecVal(x, 64)) >= 0))

    def padd(self, p, n):
        if n == 0:
            return p
        if isinstance(p, Ptr):
            return Ptr(p.o, lin_add(p.off, n))
        return p

    def conv(self, st, v, t):
        k = t["k"]
        if k == "i":
            if isinstance(v, (Fraction, Special, float)) or (is_sym(v) and (z3.is_real(v) or z3.is_fp(v))):
                return FloatBits(v)
            if t["w"] == 1 and is_sym(v) and not z3.is_bool(v):
                return self.cast(st, {}, "trunc", v, {"k": "i", "w": 8}, t)
            if is_sym(v) and z3.is_bool(v) and t["w"] > 1:
                return self.cast(st, {}, "zext", v, {"k": "i", "w": 1}, t)
            return v
        if k in "df":
            if isinstance(v, FloatBits):
                return v.v
            if isinstance(v, int):
                if v == 0:
                    return 0.0 if self.fp else Fraction(0)
                return self.cast(st, {}, "bitcast", v, {"k": "i", "w": 64 if k == "d" else 32}, t)
            if is_sym(v) and z3.is_bv(v):
                if self.fp:
                    return self.hold(z3.fpBVToFP(v, z3.Float64()))
                raise Unsupported("double read from integer cell")
            return v
        if k == "p":
            return v
        return v

    def fresh_of(self, st, t, name):
        k = t["k"]
        if k == "i":
            return self.sym_int(self.fresh(name), t["w"])
        if k in "dfx":
            return self.sym_dbl(self.fresh(name))
        if k == "p":
            raise Unsupported("read of unknown pointer (%s)" % name)
        raise Unsupported("fresh " + k)

    def load_slow(self, st, oid, o, off, sz, t):
        # contained in one larger cell?
        for d in range(0, 16):
            c = o.cells.get(off - d)
            if c is None:
                continue
            if c.sz >= d + sz:
                if c.sz == sz and d == 0:
                    return self.conv(st, c.v, t)
                if isinstance(c.v, (Undef,)):
                    return UNDEF
                v = self.extract(c.v, c.sz, d, sz)
                return self.conv(st, v, t)
            break
        # gather bytes
        any_cell = False
        parts = []
        i = 0
        while i < sz:
            b = self.byte_at(o, off + i)
            if b is None:
                parts.append(None)
            else:
                any_cell = True
                parts.append(b)
            i += 1
        if not any_cell:
            if o.zero:
                return self.zero_of(t) if t["k"] != "p" else 0
            if o.kind == "extern" or o.lazy:
                v = self.fresh_of(st, t, (o.name or "mem") + "+%d" % off)
                w = self.wobj(st, oid)
                w.cells[off] = Cell(sz, v)
                return v
            if t["k"] == "p":
                return UNDEF
            self.stats["uninit"] = self.stats.get("uninit", 0) + 1
            v = self.fresh_of(st, t, "uninit_" + (o.name or "mem"))
            w = self.wobj(st, oid)
            w.cells[off] = Cell(sz, v)
            return v
        if any(p is None for p in parts) and not o.zero:
            parts = [0 if p is None else p for p in parts] if o.kind != "extern" else parts
        parts = [0 if p is None else p for p in parts]
        if any(isinstance(p, Undef) for p in parts):
            return UNDEF
        if all(isinstance(p, int) for p in parts):
            v = 0
            for i, p in enumerate(parts):
                v |= p << (8 * i)
            return self.conv(st, v, t)
        if self.intmode:
            # little endian sum of byte values
            raise Unsupported("byte assembly of symbolic integers in int mode")
        v = self.i(z3.Concat(*[self.bv(p, 8) for p in reversed(parts)]))
        return self.conv(st, v, t)

    def extract(self, v, csz, d, sz):
        if isinstance(v, int):
            return (v >> (8 * d)) & ((1 << (8 * sz)) - 1)
        if is_sym(v) and z3.is_bv(v):
            if v.size() < 8 * csz:
                v = z3.ZeroExt(8 * csz - v.size(), v)
            return self.i(z3.Extract(8 * (d + sz) - 1, 8 * d, v))
        if self.fp and (isinstance(v, float) or z3.is_fp(v)):
            return self.i(z3.Extract(8 * (d + sz) - 1, 8 * d, z3.fpToIEEEBV(self.fpx(v))))
        if self.intmode and is_sym(v) and z3.is_int(v):
            m = 1 << (8 * sz)
            r = (v / (1 << (8 * d))) % m
            lo = -(m >> 1)
            return self.hold((r - lo) % m + lo) if True else r
        if isinstance(v, FloatBits) or isinstance(v, (Fraction, Special)):
            if isinstance(v, Fraction) and v == 0:
                return 0
        raise Unsupported("partial read of %r" % (v,))

    def byte_at(self, o, x):
        for d in range(0, 16):
            c = o.cells.get(x - d)
            if c is not None:
                if c.sz > d:
                    if isinstance(c.v, Undef):
                        return UNDEF
                    if c.sz == 1:
                        return c.v
                    return self.extract(c.v, c.sz, d, 1)
                return None
        return None

    def store(self, st, p, t, v):
        k = t["k"]
        if k == "s":
            if isinstance(v, Undef):
                return
            for i, f in enumerate(t["f"]):
                self.store(st, self.padd(p, t["o"][i]), self.T[f], v[i])
            return
        if k == "a":
            es = self.T[t["e"]]["sz"]
            for i in range(t["n"]):
                self.store(st, self.padd(p, i * es), self.T[t["e"]], v[i])
            return
        o = self.deref(st, p, "store")
        sz = self.tsize(t)
        off = p.off
        if isinstance(v, bool):
            v = int(v)
        if k == "i" and t["w"] == 1 and is_sym(v) and z3.is_bool(v):
            v = self.cast(st, {}, "zext", v, t, {"k": "i", "w": 8})
        if o.arr is not None:
            return self.arr_store(st, p, o, off, sz, v)
        if isinstance(off, Lin):
            return self.store_sym(st, p, o, off, sz, t, v)
        if isinstance(o.size, int):
            if not 0 <= off <= o.size - sz:
                self.ub(st, "memory safety: store out of bounds", False)
        elif o.size is not None:
            self.size_check(st, o, off, sz, "store")
        o = self.wobj(st, p.o)
        self.put(o, off, sz, v)

    def put(self, o, off, sz, v):
        cells = o.cells
        c = cells.get(off)
        if c is not None and c.sz == sz:
            cells[off] = Cell(sz, v)
            return
        self.clear(o, off, sz)
        cells[off] = Cell(sz, v)

    def clear(self, o, off, sz):
        """remove [off,off+sz), splitting cells that stick out."""
        cells = o.cells
        if sz > 4 * len(cells) + 64:
            hit = [x for x, c in cells.items() if x < off + sz and x + c.sz > off]
        else:
            hit = [x for x in range(off - 15, off + sz) if x in cells and x + cells[x].sz > off]
        for x in hit:
            c = cells.pop(x)
            if x >= off and x + c.sz <= off + sz:
                continue
            for b in range(c.sz):
                y = x + b
                if off <= y < off + sz:
                    continue
                if isinstance(c.v, Undef):
                    continue
                cells[y] = Cell(1, self.extract(c.v, c.sz, b, 1))

    # symbolic offset into a plain object: enumerate the feasible offsets
    def candidates(self, st, o, off, sz, what):
        if not isinstance(o.size, int):
            raise Unsupported("symbolic offset into object of unknown size (%s)" % o.name)
        g = 0
        for k, e in off.t:
            g = math.gcd(g, abs(k))
        first = off.c % g
        cand = list(range(first, o.size - sz + 1, g))
        if len(cand) > 4096:
            raise Unsupported("symbolic offset with %d candidates" % len(cand))
        x = self.lin_expr(Lin.make((off.c - first) // g, [(k // g, e) for k, e in off.t]))
        n = len(cand)
        if self.intmode:
            inb = z3.And(x >= 0, x < n)
        else:
            inb = z3.ULT(x, z3.BitVecVal(n, 64))
        self.ub(st, "memory safety: %s index out of bounds" % what, inb)
        return x, cand

    def load_sym(self, st, p, o, off, sz, t):
        x, cand = self.candidates(st, o, off, sz, "load")
        vals = []
        for i, c in enumerate(cand):
            vals.append(self.load(st, Ptr(p.o, c), t))
        return self.choose(st, x, vals, t)

    def choose(self, st, x, vals, t):
        first = vals[0]
        if all(v is first or (not is_sym(v) and not is_sym(first) and v == first and type(v) == type(first)) for v in vals):
            return first
        symok = all(is_sym(v) or isinstance(v, (int, Fraction, float)) for v in vals)
        if not symok or self.cfg.get("symload") == "fork":
            for i, v in enumerate(vals[:-1]):
                if self.decide(st, x == i):
                    return v
            return vals[-1]
        k = t["k"]
        def e(v):
            if k == "i":
                return self.bv(v, t["w"]) if not self.intmode else (z3.IntVal(signed(v, t["w"])) if isinstance(v, int) else v)
            return self.fpx(v) if self.fp else self.rx(v)
        # group equal consecutive values
        r = e(vals[-1])
        last = vals[-1]
        for i in range(len(vals) - 2, -1, -1):
            v = vals[i]
            if not is_sym(v) and not is_sym(last) and v == last:
                continue
            # values i.. up to next change share; use x <= i
            r = z3.If((x <= i) if self.intmode else z3.ULE(x, i), e(v), r)
            last = v
        return self.hold(r)

    def store_sym(self, st, p, o, off, sz, t, v):
        x, cand = self.candidates(st, o, off, sz, "store")
        k = t["k"]
        if k == "p" or not (is_sym(v) or isinstance(v, (int, Fraction, float))) or self.cfg.get("symload") == "fork":
            for i, c in enumerate(cand):
                if i == len(cand) - 1 or self.decide(st, x == i):
                    self.store(st, Ptr(p.o, c), t, v)
                    return
        for i, c in enumerate(cand):
            c1 = self.norm(x == i)
            if c1 is False:
                continue
            old = self.load(st, Ptr(p.o, c), t)
            if isinstance(old, Undef):
                nv = v
            else:
                nv = self.ite(st, c1, v, old, t)
            self.store(st, Ptr(p.o, c), t, nv)

    def ite(self, st, c, a, b, t):
        """value-level ite; may raise Fork for non-numeric operands."""
        if a is b:
            return a
        if not is_sym(c):
            return a if c else b
        if isinstance(a, Undef):
            return b
        if isinstance(b, Undef):
            return a
        if not is_sym(a) and not is_sym(b) and type(a) == type(b) and isinstance(a, (int, Fraction)) and a == b:
            return a
        k = t["k"]
        ok = (is_sym(a) or isinstance(a, (int, Fraction, float))) and (is_sym(b) or isinstance(b, (int, Fraction, float)))
        if k == "p" or not ok:
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o and a.off == b.off:
                return a
            return a if self.decide(st, c) else b
        if k == "i":
            w = t["w"]
            if w == 1:
                A = a if is_sym(a) else z3.BoolVal(bool(a))
                B = b if is_sym(b) else z3.BoolVal(bool(b))
                return self.b1(z3.If(c, A, B))
            if isinstance(a, Lin):
                a = self.lin_expr(a)
            if isinstance(b, Lin):
                b = self.lin_expr(b)
            if self.intmode:
                A, B = self.sx(a, w), self.sx(b, w)
                r = self.hold(z3.If(c, A, B))
            else:
                r = self.hold(z3.If(c, self.bv(a, w), self.bv(b, w)))
            if a == 1 and b == 0 and isinstance(a, int) and isinstance(b, int):
                self.boolof[r.get_id()] = (c, r)
            return r
        if self.fp:
            return self.hold(z3.If(c, self.fpx(a), self.fpx(b)))
        return self.hold(z3.If(c, self.rx(a), self.rx(b)))

    # -------------------------------------------------- symbolic-length arrays
    def arr_index(self, o, off):
        s = o.arr.stride
        c, t = lin_parts(off)
        if any(k % s for k, e in t):
            raise Unsupported("array index not a multiple of the element size")
        q, f = divmod(c, s)
        idx = Lin.make(q, [(k // s, e) for k, e in t]) if t else q
        return idx, f

    def idx_expr(self, idx):
        if isinstance(idx, Lin):
            return self.hold(z3.simplify(self.lin_expr(idx)))
        return z3.IntVal(idx) if self.intmode else z3.BitVecVal(idx, 64)

    def arr_bounds(self, st, o, idx, what):
        n = o.arr.n
        x = self.idx_expr(idx)
        N = self.lin_expr(n) if isinstance(n, (Lin, int)) else n
        if self.intmode:
            g = z3.And(x >= 0, x < N)
        else:
            g = z3.ULT(x, N)
        self.ub(st, "memory safety: array %s out of bounds" % what, g)
        return x

    def arr_load(self, st, p, o, off, sz, t):
        idx, f = self.arr_index(o, off)
        x = self.arr_bounds(st, o, idx, "load")
        for e in reversed(o.arr.log):
            if e[0] == "pt":
                _, y, ff, ssz, v = e
                if ff == f and ssz == sz:
                    if self.decide(st, x == y):
                        return self.conv(st, v, t)
                elif ff < f + sz and f < ff + ssz:
                    raise Unsupported("partial array cell")
            else:
                _, cond, cells = e
                c = self.hold(z3.simplify(cond(x)))
                if self.decide(st, c):
                    cl = cells(x)
                    if f in cl:
                        return self.conv(st, cl[f][1], t)
        return self.conv(st, o.arr.base(self, st, x, f, sz, t), t)

    def arr_store(self, st, p, o, off, sz, v):
        idx, f = self.arr_index(o, off)
        x = self.arr_bounds(st, o, idx, "store")
        o = self.wobj(st, p.o)
        a = o.arr
        o.arr = SymArr(a.stride, a.n, a.base, a.log + (("pt", x, f, sz, v),))

    # ------------------------------------------------------------- memcpy etc.
    def memcpy(self, st, d, s, n):
        if isinstance(n, Lin) or is_sym(n):
            return self.memcpy_sym(st, d, s, n)
        if n == 0:
            return
        so = self.deref(st, s, "memcpy read")
        do = self.deref(st, d, "memcpy write")
        if so.arr is not None or do.arr is not None or isinstance(s.off, Lin) or isinstance(d.off, Lin):
            return self.memcpy_arr(st, d, s, n, so, do)
        if isinstance(so.size, int) and not 0 <= s.off <= so.size - n:
            self.ub(st, "memory safety: memcpy source out of bounds", False)
        if isinstance(do.size, int) and not 0 <= d.off <= do.size - n:
            self.ub(st, "memory safety: memcpy destination out of bounds", False)
        items = []
        src = so.cells
        a, b = s.off, s.off + n
        if n > 4 * len(src) + 64:
            keys = sorted(x for x in src if x < b and x + src[x].sz > a)
        else:
            keys = [x for x in range(a - 15, b) if x in src and x + src[x].sz > a]
        for x in keys:
            c = src[x]
            if x >= a and x + c.sz <= b:
                items.append((x - a, c.sz, c.v))
            else:
                for y in range(c.sz):
                    if a <= x + y < b:
                        items.append((x + y - a, 1, UNDEF if isinstance(c.v, Undef) else self.extract(c.v, c.sz, y, 1)))
        if so.kind == "extern" or so.lazy:
            raise Unsupported("memcpy from an external object")
        dw = self.wobj(st, d.o)
        self.clear(dw, d.off, n)
        if so.zero and not dw.zero:
            # materialise zeros in the gaps
            covered = set()
            for o_, z, _ in items:
                covered.update(range(o_, o_ + z))
            x = 0
            while x < n:
                if x in covered:
                    x += 1
                    continue
                z = 8 if (d.off + x) % 8 == 0 and not any((x + j) in covered or x + j >= n for j in range(8)) else 1
                items.append((x, z, 0))
                x += z
        elif dw.zero and not so.zero:
            covered = set()
            for o_, z, _ in items:
                covered.update(range(o_, o_ + z))
            for x in range(n):
                if x not in covered:
                    items.append((x, 1, UNDEF))
        for o_, z, v in items:
            dw.cells[d.off + o_] = Cell(z, v)

    def memcpy_arr(self, st, d, s, n, so, do):
        # element-wise copy, 8 byte granularity by cells of the array side
        if so.arr is not None:
            idx, f = self.arr_index(so, s.off)
            cells = so.arr.base(self, st, None, None, None, None)
            off = 0
            # layout of one element: {foff: (sz, typekind)}
            for foff, (sz, t) in sorted(cells.items()):
                e = foff - f
                if e < 0 or e + sz > n:
                    if n > so.arr.stride:
                        raise Unsupported("memcpy of several array elements")
                    continue
                v = self.load(st, Ptr(s.o, lin_add(s.off, e)), t)
                self.store(st, Ptr(d.o, lin_add(d.off, e)), t, v)
            return
        # plain source into array or symbolic offset
        if isinstance(s.off, Lin):
            t8 = {"k": "i", "w": 64, "sz": 8}
            x, cand = self.candidates(st, so, s.off, n, "memcpy")
            for i, c in enumerate(cand):
                if i == len(cand) - 1 or self.decide(st, x == i):
                    return self.memcpy(st, d, Ptr(s.o, c), n)
        a, b = s.off, s.off + n
        if isinstance(d.off, Lin) and do.arr is None:
            x, cand = self.candidates(st, do, d.off, n, "memcpy")
            for i, c in enumerate(cand):
                if i == len(cand) - 1 or self.decide(st, x == i):
                    return self.memcpy(st, Ptr(d.o, c), s, n)
        keys = [x for x in range(a, b) if x in so.cells]
        for x in keys:
            c = so.cells[x]
            t = {"k": "i", "w": 8 * c.sz, "sz": c.sz}
            q = Ptr(d.o, lin_add(d.off, x - a))
            idx, f = self.arr_index(do, q.off)
            xx = self.arr_bounds(st, do, idx, "store")
            w = self.wobj(st, d.o)
            w.arr = SymArr(w.arr.stride, w.arr.n, w.arr.base, w.arr.log + (("pt", xx, f, c.sz, c.v),))

    def memcpy_sym(self, st, d, s, n):
        nl = self.to_lin(n)
        if isinstance(nl, int):
            return self.memcpy(st, d, s, nl)
        if isinstance(s, int) or isinstance(d, int):
            # copying zero bytes from null is tolerated by libstdc++
            e = self.lin_expr(nl)
            self.ub(st, "memory safety: memcpy null", e == 0)
            return
        so = self.deref(st, s, "memcpy read")
        if so.arr is not None and s.off == 0 and d.off == 0:
            do = self.robj(st, d.o)
            full = lin_scale(self.to_lin(so.arr.n), so.arr.stride)
            diff = lin_add(full, nl, -1)
            if not (isinstance(diff, int) and diff == 0):
                if not self.must(st, self.lin_expr(diff) == 0):
                    raise Unsupported("memcpy of part of a symbolic array")
            w = self.wobj(st, d.o)
            w.cells = {}
            w.arr = SymArr(so.arr.stride, so.arr.n, so.arr.base, so.arr.log)
            return
        raise Unsupported("memcpy of symbolic length")

    def memset(self, st, d, v, n):
        if isinstance(n, Lin) or is_sym(n):
            nl = self.to_lin(n)
            o = self.deref(st, d, "memset")
            if not isinstance(nl, int):
                if v == 0 and d.off == 0 and not o.cells and o.arr is None:
                    w = self.wobj(st, d.o)
                    w.zero = True
                    return
                raise Unsupported("memset of symbolic length")
            n = nl
        if n == 0:
            return
        o = self.deref(st, d, "memset")
        if isinstance(d.off, Lin) or o.arr is not None:
            raise Unsupported("memset at symbolic offset")
        if isinstance(o.size, int) and not 0 <= d.off <= o.size - n:
            self.ub(st, "memory safety: memset out of bounds", False)
        w = self.wobj(st, d.o)
        self.clear(w, d.off, n)
        if v == 0 and (w.zero or d.off == 0 and n == w.size):
            w.zero = True
            return
        x = d.off
        e = d.off + n
        while x < e:
            if isinstance(v, int) and x % 8 == 0 and x + 8 <= e:
                w.cells[x] = Cell(8, int.from_bytes(bytes([v & 255] * 8), "little"))
                x += 8
            else:
                w.cells[x] = Cell(1, v)
                x += 1

    # ------------------------------------------------------------- execution
    def val(self, fr, o):
        if isinstance(o, int):
            try:
                return fr.env[o]
            except KeyError:
                if "#exc" in fr.env:   # temporaries skipped by the throw shortcut
                    return UNDEF
                raise
        k = o["k"]
        if k == "arg":
            return fr.args[o["v"]]
        c = o.get("_c", self)
        if c is self:
            c = self.const(o)
            o["_c"] = c
        return c

    def call(self, st, name, args, ins=None):
        """Outcomes of calling function `name`."""
        f = self.F.get(name)
        if f is None and name in self.aliases:
            return self.call(st, self.const(self.aliases[name]).name, args, ins)
        h = self.models.lookup(name, f)
        if h is not None:
            try:
                r = h(st, args, ins)
            except Throw as e:
                return [Outcome(st, "exc", (e.ti, e.obj))]
            except PathEnd:
                return []
            if isinstance(r, list) and (not r or isinstance(r[0], Outcome)):
                return r
            return [Outcome(st, "ret", r)]
        if f is None or f["decl"]:
            raise Unsupported("no body for %s" % (f["dem"] if f else name))
        self.executed[name] = self.executed.get(name, 0) + 1
        if len(self.callstack) > 180:
            raise Unsupported("call depth")
        self.callstack.append(name)
        try:
            outs = self.run(st, name, f, args)
        finally:
            self.callstack.pop()
        if len(outs) > 1 and self.cfg["merge"] != "0":
            outs = self.merge(outs, self.T[f["ret"]])
        return outs

    def run(self, st, name, f, args):
        # by-value aggregates are passed by pointer to a copy (byval): handled at call
        fr = Frame(name, args)
        work = [(st, fr, 0, -1, 0)]
        outs = []
        while work:
            st, fr, bb, prev, ip = work.pop()
            try:
                self.block(st, fr, f, bb, prev, ip, work, outs)
            except PathEnd:
                pass
            if len(outs) > int(self.cfg["maxpaths"]):
                raise Unsupported("too many paths in " + f["dem"])
        return outs

    def block(self, st, fr, f, bb, prev, ip, work, outs):
        blocks = f["blocks"]
        loops = self.loopinfo[fr.fn]
        while True:
            insts = blocks[bb]
            n = len(insts)
            if ip == 0:
                # phis: parallel assignment
                if bb in loops and prev >= 0:
                    lb = loops[bb][0]
                    if prev in lb:
                        cnt = fr.counts.get(bb, 0) + 1
                        fr.counts[bb] = cnt
                        if cnt > self.unroll_max:
                            raise Unsupported("loop bound in %s" % f["dem"])
                    else:
                        fr.counts[bb] = 0
                        fr.counts[("s", bb)] = 0
                        if self.inductive is not None and self.cfg["loops"] == "inductive":
                            r = self.inductive.enter(st, fr, f, bb, prev, work, outs)
                            if r:
                                return
                vals = []
                while ip < n and insts[ip]["op"] == "phi":
                    for pb, o in insts[ip]["in"]:
                        if pb == prev:
                            vals.append((insts[ip]["i"], self.val(fr, o)))
                            break
                    ip += 1
                for i, v in vals:
                    fr.env[i] = v
            jumped = False
            while ip < n:
                ins = insts[ip]
                self.stats["instr"] += 1
                op = ins["op"]
                if "ln" in ins:
                    self.curloc = (fr.fn, ins["ln"])
                try:
                    if op == "call" or op == "invoke":
                        res = self.do_call(st, fr, f, ins, bb)
                        if res is None:
                            ip += 1
                            continue
                        # list of (state, kind, value)
                        conts = []
                        for oc in res:
                            if oc.kind == "ret":
                                conts.append((oc.st, ("val", oc.v)))
                            elif oc.kind == "unw":
                                conts.append((oc.st, ("unw", oc.v)))
                            else:
                                conts.append((oc.st, ("exc", oc.v)))
                        if not conts:
                            return
                        first = True
                        nxt = None
                        for s2, (kk, v) in conts[::-1]:
                            last = s2 is conts[0][0]
                            fr2 = fr if last else fr.fork()
                            if kk == "val":
                                fr2.env[ins["i"]] = v
                                if op == "invoke":
                                    item = (s2, fr2, ins["normal"], bb, 0)
                                else:
                                    item = (s2, fr2, bb, prev, ip + 1)
                            elif kk == "unw":
                                if v[1] is None:
                                    outs.append(Outcome(s2, "exc", v[0]))
                                    item = None
                                else:
                                    fr2.env["#exc"] = v[0]
                                    item = (s2, fr2, v[1], v[2], 0)
                            else:
                                if op == "invoke":
                                    fr2.env["#exc"] = v
                                    item = (s2, fr2, ins["unwind"], bb, 0)
                                else:
                                    outs.append(Outcome(s2, "exc", v))
                                    item = None
                            if last:
                                nxt = item
                            elif item:
                                work.append(item)
                        if nxt is None:
                            return
                        st, fr, bb, prev, ip = nxt
                        jumped = True
                        break
                    if op == "br":
                        if "cond" in ins:
                            c = self.val(fr, ins["cond"])
                            if isinstance(c, Undef):
                                raise Unsupported("branch on undefined value in " + f["dem"])
                            if is_sym(c):
                                c = self.decide(st, c)
                            nb = ins["succ"][0 if c else 1]
                        else:
                            nb = ins["succ"][0]
                        bb, prev, ip = nb, bb, 0
                        jumped = True
                        break
                    if op == "switch":
                        c = self.val(fr, ins["cond"])
                        nb = ins["def"]
                        w = 64
                        for cv, tb in ins["cases"]:
                            if is_sym(c):
                                w = c.size() if z3.is_bv(c) else 64
                                if self.decide(st, c == (cv if self.intmode else z3.BitVecVal(cv, w))):
                                    nb = tb
                                    break
                            else:
                                if isinstance(c, Lin):
                                    raise Unsupported("switch on offset")
                                if c == cv or (cv < 0 and any(c == unsigned(cv, x) for x in (8, 16, 32, 64))):
                                    nb = tb
                                    break
                        bb, prev, ip = nb, bb, 0
                        jumped = True
                        break
                    if op == "ret":
                        v = self.val(fr, ins["ops"][0]) if ins["ops"] else None
                        outs.append(Outcome(st, "ret", v))
                        return
                    if op == "unreachable":
                        if self.cfg["ub"] == "1":
                            self.oblige(st, "unreachable code reached", False, "safety")
                        return
                    if op == "resume":
                        v = self.val(fr, ins["ops"][0])
                        outs.append(Outcome(st, "exc", fr.env["#exc"]))
                        return
                    fr.env[ins["i"]] = self.step(st, fr, ins, op)
                    ip += 1
                except Fork as fk:
                    self.stats["forks"] += 1
                    self.sym_loop(fr, loops, bb, f)
                    s2 = st.fork()
                    f2 = fr.fork()
                    neg = self.norm(z3.Not(fk.cond))
                    self.learn(s2, neg)
                    self.learn(st, fk.cond)
                    work.append((s2, f2, bb, prev, ip))
                    continue
            if not jumped:
                raise Unsupported("fell off block")

    def sym_loop(self, fr, loops, bb, f):
        for h, (lb, d) in loops.items():
            if bb in lb:
                k = ("s", h)
                c = fr.counts.get(k, 0) + 1
                fr.counts[k] = c
                if c > self.unroll_sym * 4 or fr.counts.get(h, 0) > self.unroll_sym and c > self.unroll_sym:
                    raise Unsupported("loop with symbolic bound in %s (block %d) exceeds the unrolling limit" % (f["dem"], h))

    def do_call(self, st, fr, f, ins, bb):
        fo = ins["fn"]
        if not isinstance(fo, int) and fo["k"] == "fn":
            name = fo["v"]
        else:
            if not isinstance(fo, int) and fo.get("k") == "asm":
                raise Unsupported("inline asm")
            v = self.val(fr, fo)
            if isinstance(v, FnPtr):
                name = v.name
            else:
                if isinstance(v, Ptr):
                    name = None
                    raise Unsupported("call through data pointer %r in %s" % (v, f["dem"]))
                raise Unsupported("indirect call through %r in %s" % (v, f["dem"]))
        if name.startswith("llvm.dbg") or name.startswith("llvm.experimental.noalias"):
            return None
        if name == "llvm.eh.typeid.for" or name == "llvm.eh.typeid.for.p0":
            g = ins["ops"][0]
            fr.env[ins["i"]] = self.typeid_num(g["v"] if g["k"] == "g" else "?")
            return None
        if name == "__cxa_allocate_exception":
            ti = self.find_throw(f, ins["i"])
            if ti is not None:
                self.trusted.add("exception messages are not built (the throw takes place at the allocation of the exception)")
                tins = ti[1]
                st_exc = (ti[0], 0)
                if tins["op"] == "invoke":
                    return [Outcome(st, "unw", (st_exc, tins["unwind"], ti[2]))]
                return [Outcome(st, "unw", (st_exc, None, None))]
        args = [self.val(fr, o) if not (isinstance(o, dict) and o["k"] in ("meta", "asm")) else None for o in ins["ops"]]
        if "byval" in ins:
            for i, t in ins["byval"]:
                sz = self.T[t]["sz"]
                oid = self.new_obj(st, sz, "stack", "byval")
                self.memcpy(st, Ptr(oid, 0), args[i], sz)
                args[i] = Ptr(oid, 0)
        self.curargt = ins.get("ats")
        outs = self.call(st, name, args, ins)
        if len(outs) == 1 and outs[0].kind == "ret" and outs[0].st is st and ins["op"] == "call":
            fr.env[ins["i"]] = outs[0].v
            return None
        return outs

    def find_throw(self, f, idx):
        cache = f.setdefault("_throws", {})
        if idx in cache:
            return cache[idx]
        r = None
        for bn, b in enumerate(f["blocks"]):
            for i in b:
                if i["op"] in ("call", "invoke") and isinstance(i["fn"], dict) and i["fn"].get("v") == "__cxa_throw":
                    o = i["ops"][0]
                    if o == idx:
                        t = i["ops"][1]
                        r = (t.get("v", "?"), i, bn)
        cache[idx] = r
        return r

    def typeid_num(self, g):
        d = self.__dict__.setdefault("_tids", {})
        return d.setdefault(g, len(d) + 1)

    def step(self, st, fr, ins, op):
        T = self.T
        if op == "load":
            p = self.val(fr, ins["ops"][0])
            return self.load(st, p, T[ins["t"]])
        if op == "store":
            self.store(st, self.val(fr, ins["ops"][1]), T[ins["ots"][0]], self.val(fr, ins["ops"][0]))
            return None
        if op == "getelementptr":
            b = self.val(fr, ins["base"])
            off = ins["off"]
            for o, s, ty in ins["var"]:
                w = T[ty]["w"]
                v = self.val(fr, o)
                if is_sym(v) and not self.intmode and v.size() < 64:
                    v = self.hold(z3.simplify(z3.SignExt(64 - v.size(), v)))
                    off = lin_add(off, lin_scale(self.to_lin(v), s))
                else:
                    if isinstance(v, Undef):
                        v = 0
                    off = lin_add(off, lin_scale(self.to_lin(v, w), s))
            if isinstance(b, Ptr):
                return Ptr(b.o, lin_add(b.off, off))
            if isinstance(b, int):
                if isinstance(off, int):
                    return unsigned(b + off, 64)
                return 0 if b == 0 and self.must(st, self.lin_expr(off) == 0) else self._badptr(st)
            if isinstance(b, FnPtr) and off == 0:
                return b
            if isinstance(b, Undef):
                return UNDEF
            raise Unsupported("gep on %r" % (b,))
        if op == "icmp":
            t = T[self._opt(ins, 0, fr)] if "ots" in ins else None
            a, b = self.val(fr, ins["ops"][0]), self.val(fr, ins["ops"][1])
            w = self.cmp_width(fr, ins, a, b)
            if is_sym(a) and z3.is_bool(a) or is_sym(b) and z3.is_bool(b):
                A = a if is_sym(a) else z3.BoolVal(bool(a))
                B = b if is_sym(b) else z3.BoolVal(bool(b))
                if ins["pred"] == "eq":
                    return self.b1(A == B)
                if ins["pred"] == "ne":
                    return self.b1(A != B)
                raise Unsupported("icmp on i1")
            return self.icmp(st, ins["pred"], a, b, w, False)
        if op == "fcmp":
            return self.fcmp(st, ins["pred"], self.val(fr, ins["ops"][0]), self.val(fr, ins["ops"][1]))
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            return self.fbin(st, op, self.val(fr, ins["ops"][0]), self.val(fr, ins["ops"][1]))
        if op == "fneg":
            return self.fneg(self.val(fr, ins["ops"][0]))
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr"):
            return self.binop(st, ins, op, self.val(fr, ins["ops"][0]), self.val(fr, ins["ops"][1]), T[ins["t"]]["w"])
        if op in ("trunc", "zext", "sext", "fptoui", "fptosi", "uitofp", "sitofp", "fptrunc", "fpext", "ptrtoint", "inttoptr", "bitcast"):
            return self.cast(st, ins, op, self.val(fr, ins["ops"][0]), T[ins["ots"][0]], T[ins["t"]])
        if op == "alloca":
            n = self.val(fr, ins["ops"][0])
            sz = T[ins["at"]]["sz"] * n
            return Ptr(self.new_obj(st, sz, "stack", "alloca"), 0)
        if op == "select":
            c = self.val(fr, ins["ops"][0])
            a, b = self.val(fr, ins["ops"][1]), self.val(fr, ins["ops"][2])
            if not is_sym(c):
                return a if c else b
            t = T[ins["t"]]
            if t["k"] in "df" and not self.fp and self.cfg.get("abs") != "ite":
                return a if self.decide(st, c) else b
            if t["k"] == "s":
                return a if self.decide(st, c) else b
            return self.ite(st, c, a, b, t)
        if op == "extractvalue":
            v = self.val(fr, ins["ops"][0])
            for i in ins["idx"]:
                if isinstance(v, Undef):
                    return v
                v = v[i]
            return v
        if op == "insertvalue":
            agg = self.val(fr, ins["ops"][0])
            v = self.val(fr, ins["ops"][1])
            def ins_(a, idx):
                a = list(a)
                if len(idx) == 1:
                    a[idx[0]] = v
                else:
                    a[idx[0]] = ins_(a[idx[0]], idx[1:])
                return tuple(a)
            return ins_(agg, ins["idx"])
        if op == "freeze":
            v = self.val(fr, ins["ops"][0])
            return 0 if isinstance(v, Undef) else v
        if op == "landingpad":
            ti, obj = fr.env["#exc"]
            sel = None
            for c in ins["clauses"]:
                if c["catch"]:
                    if c["v"]["k"] == "null":
                        sel = self.typeid_num("*")
                        break
                    if c["v"]["k"] == "g" and self.ti_matches(ti, c["v"]["v"]):
                        sel = self.typeid_num(c["v"]["v"])
                        break
            if sel is None:
                sel = 0
            return (obj, sel)
        if op == "atomicrmw":
            p = self.val(fr, ins["ops"][0])
            t = T[ins["ots"][1]]
            old = self.load(st, p, t)
            v = self.val(fr, ins["ops"][1])
            k = ins["rmw"]
            if k == 0:
                nv = v
            elif k == 1:
                nv = self.binop(st, {}, "add", old, v, t["w"])
            elif k == 2:
                nv = self.binop(st, {}, "sub", old, v, t["w"])
            else:
                raise Unsupported("atomicrmw")
            self.store(st, p, t, nv)
            return old
        if op == "fence":
            return None
        raise Unsupported("instruction " + op)

    def _badptr(self, st):
        raise Unsupported("arithmetic on integer pointer")

    def _opt(self, ins, i, fr):
        return ins["ots"][i]

    def cmp_width(self, fr, ins, a, b):
        w = ins.get("_w")
        if w is None:
            o = ins["ops"]
            w = 64
            for x in o:
                if isinstance(x, dict) and x["k"] == "int":
                    w = self.T[x["t"]]["w"]
                    break
                if isinstance(x, dict) and x["k"] == "arg":
                    t = self.T[self.F[fr.fn]["params"][x["v"]]]
                    w = t.get("w", 64)
                    break
                if isinstance(x, int):
                    t = self.inst_type(fr.fn, x)
                    w = t.get("w", 64)
                    break
            ins["_w"] = w
        return w

    def inst_type(self, fn, idx):
        f = self.F[fn]
        c = f.get("_it")
        if c is None:
            c = {}
            for b in f["blocks"]:
                for i in b:
                    c[i["i"]] = i["t"]
            f["_it"] = c
        return self.T[c[idx]]

    # ------------------------------------------------------------- merging
    def merge(self, outs, rt):
        rets = [o for o in outs if o.kind == "ret"]
        other = [o for o in outs if o.kind != "ret"]
        if len(rets) < 2:
            return outs
        k = rt["k"]
        if k not in ("v", "i", "d") or (k == "d" and self.cfg.get("mergedbl") != "1"):
            return outs
        # common prefix of path conditions
        pcs = [o.st.pc for o in rets]
        n = min(len(p) for p in pcs)
        i = 0
        while i < n and all(p[i] is pcs[0][i] or p[i].eq(pcs[0][i]) for p in pcs):
            i += 1
        common = pcs[0][:i]
        diffs = []
        for p in pcs:
            d = p[i:]
            diffs.append(z3.And(*d) if len(d) > 1 else (d[0] if d else z3.BoolVal(True)))
        base = rets[-1]
        # memory must agree up to scalar cells
        ids = set()
        for o in rets:
            ids |= set(o.st.mem)
        newcells = {}
        allocd = []
        for oid in ids:
            objs = [o.st.mem.get(oid) for o in rets]
            f0 = objs[0]
            if all(x is f0 for x in objs):
                continue
            ref = self.base.get(oid)
            present = [x for x in objs if x is not None]
            if len(present) < len(objs) and ref is None:
                # object created on some paths only
                kinds = {x.kind for x in present}
                if kinds <= {"stack", "heap"}:
                    allocd.append((oid, present[0]))
                    if any(x is not present[0] for x in present):
                        return outs
                    continue
                return outs
            objs = [x if x is not None else ref for x in objs]
            f0 = objs[0]
            if any(x.freed != f0.freed or x.arr is not f0.arr or x.zero != f0.zero for x in objs):
                return outs
            keys = {}
            for x in objs:
                for off, c in x.cells.items():
                    if keys.setdefault(off, c.sz) != c.sz:
                        return outs
            end = None
            for off in sorted(keys):
                if end is not None and off < end:
                    return outs
                end = off + keys[off]
            for off, sz in keys.items():
                vs = [x.cells.get(off) for x in objs]
                if any(v is None for v in vs):
                    if f0.zero:   # no cell means zero
                        vs = [v if v is not None else Cell(sz, 0) for v in vs]
                    elif f0.kind == "stack":
                        vs = [v if v is not None else Cell(sz, UNDEF) for v in vs]
                    else:
                        return outs
                vv = [v.v for v in vs]
                if all(self.same(v, vv[0]) for v in vv):
                    continue
                defd = [v for v in vv if not isinstance(v, Undef)]
                if not all(is_sym(v) or isinstance(v, int) for v in defd):
                    return outs
                if any(is_sym(v) and (z3.is_real(v) or z3.is_fp(v)) for v in defd):
                    return outs
                newcells[(oid, off)] = (sz, vv)
        vals = [o.v for o in rets]
        t = rt
        if k == "i" or k == "d":
            if not all(is_sym(v) or isinstance(v, (int, Fraction, float)) and not isinstance(v, Special) for v in vals):
                return outs
            r = vals[-1]
            for d, v in zip(reversed(diffs[:-1]), reversed(vals[:-1])):
                r = self.ite(base.st, self.b1(d) if not isinstance(d, int) else d, v, r, t)
            val = r
        else:
            val = None
        s = base.st
        s.pc = common
        s.pcids = frozenset(c.get_id() for c in common)
        # bounds learnt on one path only are dropped
        b0 = {}
        for key, b in s.bounds.items():
            if all(o.st.bounds.get(key, (None,))[:2] == b[:2] for o in rets):
                b0[key] = b
            else:
                los = [o.st.bounds[key][0] if key in o.st.bounds else None for o in rets]
                his = [o.st.bounds[key][1] if key in o.st.bounds else None for o in rets]
                if None not in los:
                    b0[key] = (min(los), max(his), b[2])
        s.bounds = b0
        disj = self.norm(z3.Or(*diffs))
        if disj is not True:
            # is the disjunction implied?  (typical: exhaustive branching)
            s.add(disj)
        for oid, x in allocd:
            if oid not in s.mem:
                s.mem[oid] = x
        for (oid, off), (sz, vv) in newcells.items():
            tt = {"k": "i", "w": 8 * sz, "sz": sz}
            r = vv[-1]
            for d, v in zip(reversed(diffs[:-1]), reversed(vv[:-1])):
                r = self.ite(s, self.b1(d), v, r, tt)
            w = self.wobj(s, oid)
            w.cells[off] = Cell(sz, r)
        self.stats["merged"] += len(rets) - 1
        return other + [Outcome(s, "ret", val)]

    def same(self, a, b):
        if a is b:
            return True
        if is_sym(a) or is_sym(b):
            return is_sym(a) and is_sym(b) and a.eq(b)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a.o == b.o and (a.off == b.off if isinstance(a.off, int) and isinstance(b.off, int) else a.off is b.off)
        if isinstance(a, FnPtr) and isinstance(b, FnPtr):
            return a.name == b.name
        if type(a) != type(b):
            return False
        if isinstance(a, (int, float, Fraction)):
            return a == b
        return isinstance(a, Undef)
