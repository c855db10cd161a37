"""Bit-vector obligations as linear integer arithmetic.

Every bit-vector term is represented by an integer expression congruent to it
modulo 2^w, with an interval; wrap-around is only introduced where the interval
does not exclude it.  Symbols are cut into the pieces the formula looks at.
Only an `unsat` of the translation is used."""
import z3


class Fail(Exception):
    pass


class B2I:
    def __init__(self):
        self.memo = {}
        self.cuts = {}
        self.syms = {}
        self.rng = {}
        self.side = []

    def scan(self, es):
        seen = set()
        stack = list(es)
        while stack:
            e = stack.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_bv(e) and e.num_args() == 0 and not z3.is_bv_value(e):
                self.cuts.setdefault(e.get_id(), {0, e.size()})
                self.syms[e.get_id()] = e
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_EXTRACT:
                hi, lo = e.params()
                a = e.arg(0)
                if a.num_args() == 0 and not z3.is_bv_value(a):
                    self.cuts.setdefault(a.get_id(), {0, a.size()}).update((lo, hi + 1))
                    self.syms[a.get_id()] = a
            stack.extend(e.children())

    def piece(self, s, lo, hi):
        k = "%s[%d:%d]" % (s.decl().name(), hi - 1, lo)
        if k not in self.rng:
            v = z3.Int(k)
            self.rng[k] = [0, (1 << (hi - lo)) - 1]
            self.side.append((k, v))
        return z3.Int(k), self.rng[k][0], self.rng[k][1]

    def pieces(self, s, lo, hi):
        c = sorted(x for x in self.cuts[s.get_id()] if lo <= x <= hi)
        if c[0] != lo or c[-1] != hi:
            raise Fail()
        e, l, h = z3.IntVal(0), 0, 0
        for a, b in zip(c, c[1:]):
            v, pl, ph = self.piece(s, a, b)
            m = 1 << (a - lo)
            e = e + v * m if m > 1 or l or h else v
            l += pl * m
            h += ph * m
        return e, l, h

    def t(self, x):
        i = x.get_id()
        r = self.memo.get(i)
        if r is None:
            r = self.t_(x)
            e, l, h = r
            if l == h:
                r = (z3.IntVal(l), l, h)
            self.memo[i] = r
        return r

    def u(self, x):
        e, l, h = self.t(x)
        M = 1 << x.size()
        if 0 <= l and h < M:
            return e, l, h
        k = l // M
        if h // M == k:
            return e - k * M, l - k * M, h - k * M
        if -M <= l and h < M:
            return z3.If(e < 0, e + M, e), 0, M - 1
        return e % M, 0, M - 1

    def s(self, x):
        e, l, h = self.t(x)
        M = 1 << x.size()
        H = M >> 1
        if -H <= l and h < H:
            return e, l, h
        k = (l + H) // M
        if (h + H) // M == k:
            return e - k * M, l - k * M, h - k * M
        if -H <= l and h < H + M:
            return z3.If(e >= H, e - M, e), -H, H - 1
        return (e + H) % M - H, -H, H - 1

    def t_(self, x):
        w = x.size()
        if z3.is_bv_value(x):
            v = x.as_signed_long()
            return z3.IntVal(v), v, v
        if not z3.is_app(x):
            raise Fail()
        if x.num_args() == 0:
            return self.pieces(x, 0, w)
        k = x.decl().kind()
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = x.params()
            a = x.arg(0)
            if a.num_args() == 0 and not z3.is_bv_value(a):
                return self.pieces(a, lo, hi + 1)
            if lo == 0:
                return self.t(a)
            e, l, h = self.u(a)
            return e / (1 << lo), l >> lo, h >> lo
        if k == z3.Z3_OP_BADD:
            e, l, h = self.t(x.arg(0))
            for c in x.children()[1:]:
                f, m, n = self.t(c)
                e, l, h = e + f, l + m, h + n
            return e, l, h
        if k == z3.Z3_OP_BSUB:
            e, l, h = self.t(x.arg(0))
            for c in x.children()[1:]:
                f, m, n = self.t(c)
                e, l, h = e - f, l - n, h - m
            return e, l, h
        if k == z3.Z3_OP_BNEG:
            e, l, h = self.t(x.arg(0))
            return -e, -h, -l
        if k == z3.Z3_OP_BNOT:
            e, l, h = self.t(x.arg(0))
            return -e - 1, -h - 1, -l - 1
        if k == z3.Z3_OP_BMUL:
            e, l, h = self.t(x.arg(0))
            for c in x.children()[1:]:
                f, m, n = self.t(c)
                ps = [l * m, l * n, h * m, h * n]
                e, l, h = e * f, min(ps), max(ps)
            return e, l, h
        if k == z3.Z3_OP_ZERO_EXT:
            return self.u(x.arg(0))
        if k == z3.Z3_OP_SIGN_EXT:
            return self.s(x.arg(0))
        if k == z3.Z3_OP_CONCAT:
            e, l, h = z3.IntVal(0), 0, 0
            sh = 0
            for c in reversed(x.children()):
                f, m, n = self.u(c)
                e, l, h = e + f * (1 << sh), l + (m << sh), h + (n << sh)
                sh += c.size()
            return e, l, h
        if k == z3.Z3_OP_ITE:
            c = self.b(x.arg(0))
            e, l, h = self.t(x.arg(1))
            f, m, n = self.t(x.arg(2))
            return z3.If(c, e, f), min(l, m), max(h, n)
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(x.arg(1)):
            e, l, h = self.t(x.arg(0))
            n = x.arg(1).as_long()
            return e * (1 << n), l << n, h << n
        if k == z3.Z3_OP_BLSHR and z3.is_bv_value(x.arg(1)):
            e, l, h = self.u(x.arg(0))
            n = x.arg(1).as_long()
            return e / (1 << n), l >> n, h >> n
        if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I) and z3.is_bv_value(x.arg(1)):
            d = x.arg(1).as_long()
            if d == 0:
                raise Fail()
            e, l, h = self.u(x.arg(0))
            if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I):
                return e / d, l // d, h // d
            if h < d:
                return e, l, h
            return e % d, 0, d - 1
        if k == z3.Z3_OP_BAND and x.num_args() == 2:
            for a, b in ((x.arg(0), x.arg(1)), (x.arg(1), x.arg(0))):
                if z3.is_bv_value(b):
                    m = b.as_long()
                    if m & (m + 1) == 0:
                        e, l, h = self.u(a)
                        if h <= m:
                            return e, l, h
                        return e % (m + 1), 0, m
        raise Fail()

    def b(self, x):
        if z3.is_true(x) or z3.is_false(x):
            return x
        k = x.decl().kind()
        if x.num_args() == 0:
            return x
        if k == z3.Z3_OP_AND:
            return z3.And(*[self.b(c) for c in x.children()])
        if k == z3.Z3_OP_OR:
            return z3.Or(*[self.b(c) for c in x.children()])
        if k == z3.Z3_OP_NOT:
            return z3.Not(self.b(x.arg(0)))
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.b(x.arg(0)), self.b(x.arg(1)))
        if k == z3.Z3_OP_ITE:
            return z3.If(self.b(x.arg(0)), self.b(x.arg(1)), self.b(x.arg(2)))
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and x.num_args() == 2:
            a, c = x.arg(0), x.arg(1)
            if z3.is_bv(a):
                e, l, h = self.t(a)
                f, m, n = self.t(c)
                M = 1 << a.size()
                if l - n > -M and h - m < M:
                    r = e == f
                else:
                    r = (e - f) % M == 0
            elif z3.is_bool(a):
                r = self.b(a) == self.b(c)
            else:
                raise Fail()
            return r if k == z3.Z3_OP_EQ else z3.Not(r)
        cmp = {z3.Z3_OP_ULEQ: ("u", "le"), z3.Z3_OP_ULT: ("u", "lt"), z3.Z3_OP_UGEQ: ("u", "ge"), z3.Z3_OP_UGT: ("u", "gt"),
               z3.Z3_OP_SLEQ: ("s", "le"), z3.Z3_OP_SLT: ("s", "lt"), z3.Z3_OP_SGEQ: ("s", "ge"), z3.Z3_OP_SGT: ("s", "gt")}.get(k)
        if cmp:
            f = self.u if cmp[0] == "u" else self.s
            a, c = f(x.arg(0))[0], f(x.arg(1))[0]
            return {"le": a <= c, "lt": a < c, "ge": a >= c, "gt": a > c}[cmp[1]]
        raise Fail()

    def bound(self, c):
        """hypothesis  piece <= constant"""
        neg = False
        if z3.is_not(c):
            neg, c = True, c.arg(0)
        k = c.decl().kind()
        if k not in (z3.Z3_OP_ULEQ, z3.Z3_OP_SLEQ) or c.num_args() != 2:
            return
        a, b = c.arg(0), c.arg(1)
        for x, y, up in ((a, b, not neg), (b, a, neg)):
            if not z3.is_bv_value(y):
                continue
            while z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_CONCAT):
                if x.decl().kind() == z3.Z3_OP_ZERO_EXT:
                    x = x.arg(0)
                elif x.num_args() == 2 and z3.is_bv_value(x.arg(0)) and x.arg(0).as_long() == 0:
                    x = x.arg(1)
                else:
                    break
            try:
                if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_EXTRACT and x.arg(0).num_args() == 0:
                    hi, lo = x.params()
                    s = x.arg(0)
                elif x.num_args() == 0:
                    s, lo, hi = x, 0, x.size() - 1
                else:
                    return
                cc = [q for q in self.cuts[s.get_id()] if lo < q <= hi]
                if cc:
                    return
                self.piece(s, lo, hi + 1)
            except (Fail, KeyError):
                return
            key = "%s[%d:%d]" % (s.decl().name(), hi, lo)
            v = y.as_long()
            if k == z3.Z3_OP_SLEQ and (v >> (y.size() - 1) or x.size() == y.size() and self.rng[key][1] >= 1 << (x.size() - 1)):
                return
            if up:
                self.rng[key][1] = min(self.rng[key][1], v - (1 if neg else 0))
            else:
                self.rng[key][0] = max(self.rng[key][0], v + (1 if neg else 0))


def prove_int(pc, goal, timeout):
    pc = [z3.simplify(c) for c in pc]
    flat = []
    for c in pc:
        flat.extend(c.children() if z3.is_and(c) else [c])
    g = z3.simplify(goal)
    t = B2I()
    t.scan(flat + [g])
    for c in flat:
        t.bound(c)
    for r in t.rng.values():
        if r[0] > r[1]:
            return False
    try:
        G = t.b(g)
    except Fail:
        return False
    hyps = []
    for c in flat:
        try:
            hyps.append(t.b(c))
        except Fail:
            pass
    s = z3.Solver()
    s.set("timeout", int(timeout * 1000))
    for k, v in t.side:
        s.add(v >= t.rng[k][0], v <= t.rng[k][1])
    s.add(*hyps)
    s.add(z3.Not(G))
    return s.check() == z3.unsat
