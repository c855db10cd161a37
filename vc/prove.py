"""Discharging obligations: polynomial identity ("ring"), z3, nlsat, cvc5."""
import os
import pickle
import select
import signal
import time
from fractions import Fraction
import z3
from .values import *


# ------------------------------------------------------------------ ring
class RingFail(Exception):
    pass


class Ring:
    """Decides a == b for rational functions modulo s^2 = radicand relations
    and definitional equalities, by expansion to a common numerator."""

    def __init__(self, ex, pc, limit=60000, lemmas=True, opaque=False):
        self.ex = ex
        self.atoms = {}
        self.names = []
        self.exprs = []
        self.limit = limit
        self.t0 = time.time()
        self.rel = []   # (atom index, power, num poly, den poly)
        self.memo = {}
        self.subst = {}
        self.pc = pc
        # lemmas that give a variable in terms of others are used as rewrite rules
        self.opaque = ex.opaque_ids if opaque else ()   # terms named by lemmas stay closed
        for c in pc if lemmas else ():
            if c.get_id() in ex.lemma_ids and z3.is_eq(c) and z3.is_real(c.arg(0)):
                for l, r in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                    if l.num_args() == 0 and not z3.is_rational_value(l) and not self.occurs(l, r):
                        self.subst.setdefault(l.get_id(), r)
                        break

    # polynomials: dict {monomial tuple((i,e),...) : Fraction}
    def const(self, c):
        return {(): Fraction(c)} if c else {}

    def atom(self, e):
        i = self.atoms.get(e.get_id())
        if i is None:
            i = len(self.exprs)
            self.atoms[e.get_id()] = i
            self.exprs.append(e)
        return {((i, 1),): Fraction(1)}

    def add(self, a, b, s=1):
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + s * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def mulm(self, m, n):
        if not m:
            return n
        if not n:
            return m
        d = dict(m)
        for i, e in n:
            d[i] = d.get(i, 0) + e
        return tuple(sorted(d.items()))

    def mul(self, a, b):
        if len(a) * len(b) > self.limit or time.time() - self.t0 > 6:
            raise RingFail()
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                k = self.mulm(m, n)
                v = r.get(k, 0) + c * d
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
        return self.reduce(r)

    def reduce(self, p):
        return p

    # rational functions: (num, den-factors as dict{frozen poly key: (poly, exp)})
    def fr(self, e):
        i = e.get_id()
        if i in self.memo:
            return self.memo[i]
        r = self.fr_(e)
        self.memo[i] = r
        return r

    def one(self):
        return ({(): Fraction(1)}, {})

    def pkey(self, p):
        return frozenset(p.items())

    def den_poly(self, d):
        r = {(): Fraction(1)}
        for k, (p, e) in d.items():
            for _ in range(e):
                r = self.mul(r, p)
        return r

    def comb(self, a, b, s):
        (na, da), (nb, db) = a, b
        if not na:
            return (nb if s == 1 else {m: -c for m, c in nb.items()}, db)
        if not nb:
            return a
        d = dict(da)
        ma, mb = {(): Fraction(1)}, {(): Fraction(1)}
        for k, (p, e) in db.items():
            ea = da.get(k, (p, 0))[1]
            if e > ea:
                d[k] = (p, e)
                for _ in range(e - ea):
                    ma = self.mul(ma, p)
        for k, (p, e) in da.items():
            eb = db.get(k, (p, 0))[1]
            if e > eb:
                for _ in range(e - eb):
                    mb = self.mul(mb, p)
        return (self.add(self.mul(na, ma), self.mul(nb, mb), s), d)

    def fmul(self, a, b):
        (na, da), (nb, db) = a, b
        d = dict(da)
        for k, (p, e) in db.items():
            d[k] = (p, d.get(k, (p, 0))[1] + e)
        # cheap cancellation: numerator equal to a denominator factor
        na, d = self.cancel(na, d)
        nb, d = self.cancel(nb, d)
        return (self.mul(na, nb), d)

    def cancel(self, n, d):
        k = self.pkey(n)
        if k in d and len(n) >= 1 and n != {(): Fraction(1)}:
            p, e = d[k]
            d = dict(d)
            if e == 1:
                del d[k]
            else:
                d[k] = (p, e - 1)
            return {(): Fraction(1)}, d
        return n, d

    def finv(self, a):
        n, d = a
        if not n:
            raise RingFail()
        if len(n) == 1 and () in n:
            return ({m: c / n[()] for m, c in self.den_poly(d).items()}, {})
        return (self.den_poly(d), {self.pkey(n): (n, 1)})

    def fr_(self, e):
        if z3.is_rational_value(e):
            return (self.const(Fraction(e.numerator_as_long(), e.denominator_as_long())), {})
        if z3.is_int_value(e):
            return (self.const(e.as_long()), {})
        if e.get_id() in self.opaque:
            return (self.atom(e), {})
        if z3.is_app(e):
            k = e.decl().kind()
            if k == z3.Z3_OP_ADD:
                r = ({}, {})
                for c in e.children():
                    r = self.comb(r, self.fr(c), 1)
                return r
            if k == z3.Z3_OP_SUB:
                ch = e.children()
                r = self.fr(ch[0])
                for c in ch[1:]:
                    r = self.comb(r, self.fr(c), -1)
                return r
            if k == z3.Z3_OP_UMINUS:
                n, d = self.fr(e.arg(0))
                return ({m: -c for m, c in n.items()}, d)
            if k == z3.Z3_OP_MUL:
                r = self.one()
                for c in e.children():
                    r = self.fmul(r, self.fr(c))
                return r
            if k == z3.Z3_OP_DIV:
                return self.fmul(self.fr(e.arg(0)), self.finv(self.fr(e.arg(1))))
            if k == z3.Z3_OP_POWER and z3.is_rational_value(e.arg(1)):
                p = e.arg(1)
                if p.denominator_as_long() == 1 and 0 <= p.numerator_as_long() <= 8:
                    r = self.one()
                    b = self.fr(e.arg(0))
                    for _ in range(p.numerator_as_long()):
                        r = self.fmul(r, b)
                    return r
        s = self.subst.get(e.get_id())
        if s is not None:
            self.subst.pop(e.get_id())
            r = self.fr(s)
            return r
        return (self.atom(e), {})

    def relations(self):
        """s^2 = rad for sqrt symbols (latest first), c^2 = 1 - s^2 for trig."""
        rels = []
        for y, x in reversed(list(self.ex.sqrt_rel.values())):
            rels.append((y, x))
        for s, c in self.ex.defs.get("trig", []):
            rels.append((c, 1 - s * s))
        # hypotheses of the form v*v == t
        for c in reversed(self.pc):
            if z3.is_eq(c) and z3.is_real(c.arg(0)):
                for l, r in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                    v = self.square_of(l)
                    if v is not None and v.get_id() not in [y.get_id() for y, _ in rels] and not self.occurs(v, r):
                        rels.append((v, r))
                        break
        return rels

    def square_of(self, e):
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_MUL and e.num_args() == 2 and e.arg(0).eq(e.arg(1)) and e.arg(0).num_args() == 0 and not z3.is_rational_value(e.arg(0)):
                return e.arg(0)
            if e.decl().kind() == z3.Z3_OP_POWER and z3.is_rational_value(e.arg(1)) and e.arg(1).numerator_as_long() == 2 and e.arg(0).num_args() == 0:
                return e.arg(0)
        return None

    def occurs(self, v, e, memo=None):
        memo = set() if memo is None else memo
        if e.get_id() in memo:
            return False
        memo.add(e.get_id())
        if e.eq(v):
            return True
        return any(self.occurs(v, c, memo) for c in e.children())

    def zero(self, num):
        for y, x in self.relations():
            i = self.atoms.get(y.get_id())
            if i is None:
                continue
            if not any(any(j == i and ee >= 2 for j, ee in m) for m in num):
                continue
            rn, rd = self.fr(x)
            rd = self.den_poly(rd)
            # group by power of y
            parts = {}
            top = 0
            for m, c in num.items():
                e = dict(m).get(i, 0)
                rest = tuple((j, q) for j, q in m if j != i)
                h, l = divmod(e, 2)
                top = max(top, h)
                parts.setdefault((h, l), {})[rest] = c
            out = {}
            for (h, l), p in parts.items():
                q = p
                for _ in range(h):
                    q = self.mul(q, rn)
                for _ in range(top - h):
                    q = self.mul(q, rd)
                if l:
                    q = self.mul(q, {((i, 1),): Fraction(1)})
                out = self.add(out, q)
            num = out
            if not num:
                return True
        return not num

    def equal(self, a, b):
        try:
            n, d = self.comb(self.fr(a), self.fr(b), -1)
            # several passes: reducing one radical can expose another
            if not n:
                return True
            return self.zero(n)
        except (RingFail, RecursionError):
            return False


# ------------------------------------------------------------------ solvers
def has_uf(exprs):
    seen = set()
    stack = list(exprs)
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(e) and e.num_args() > 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name().startswith("m_"):
            return True
        stack.extend(e.children())
    return False


def sorts(exprs):
    seen = set()
    res = set()
    stack = list(exprs)
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(e):
            if e.num_args() == 0:
                res.add(e.sort().name())
            k = e.decl().kind()
            if k == z3.Z3_OP_UNINTERPRETED and e.num_args() > 0:
                res.add("uf")
            if k in (z3.Z3_OP_MUL, z3.Z3_OP_DIV) and sum(1 for c in e.children() if not z3.is_rational_value(c) and not z3.is_int_value(c)) > 1:
                res.add("nl")
            if k == z3.Z3_OP_TO_REAL:
                res.add("mixed")
        elif z3.is_quantifier(e):
            res.add("quant")
        stack.extend(e.children())
    return res


def run_z3(assertions, timeout, tactic=None, seed=0):
    s = z3.Tactic(tactic).solver() if tactic else z3.Solver()
    s.set("timeout", int(timeout * 1000))
    if seed:
        s.set("random_seed", seed)
    s.add(*assertions)
    try:
        r = s.check()
    except z3.Z3Exception:
        return "unknown", None
    if r == z3.sat:
        try:
            return "sat", s.model()
        except z3.Z3Exception:
            return "sat", None
    return str(r), None


def portfolio(fns, timeout, good, grace=2):
    """runs the functions in child processes at once; the first result that is good wins, the others are killed
    (also when a solver ignores its own time limit).  Returns (index, result) or None."""
    kids = {}
    for i, fn in enumerate(fns):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                out = pickle.dumps(fn())
                with os.fdopen(w, "wb") as f:
                    f.write(out)
            finally:
                os._exit(0)
        os.close(w)
        kids[r] = [i, pid, b""]
    end = time.time() + timeout + grace
    won = None
    while kids and won is None:
        left = end - time.time()
        if left <= 0:
            break
        rd, _, _ = select.select(list(kids), [], [], left)
        if not rd:
            break
        for r in rd:
            chunk = os.read(r, 1 << 20)
            if chunk:
                kids[r][2] += chunk
                continue
            i, pid, data = kids.pop(r)
            os.close(r)
            os.waitpid(pid, 0)
            try:
                res = pickle.loads(data)
            except Exception:
                continue
            if won is None and good(res):
                won = (i, res)
    for r, (i, pid, data) in kids.items():
        os.close(r)
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
    return won


def run_cvc5(assertions, timeout, logic="ALL"):
    import cvc5
    s = z3.Solver()
    s.add(*assertions)
    txt = s.to_smt2()
    try:
        tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
        slv = cvc5.Solver(tm) if tm else cvc5.Solver()
        slv.setOption("tlimit-per", str(int(timeout * 1000)))
        slv.setOption("nl-cov", "true")
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, "(set-logic %s)\n" % logic + txt, "q")
        sm = p.getSymbolManager()
        res = "unknown"
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            out = c.invoke(slv, sm)
            if "unsat" in str(out):
                res = "unsat"
            elif "sat" in str(out).split():
                res = "sat"
        return res
    except Exception as e:     # parser/logic limits
        return "unknown"


def relevant(pc, goal):
    """drop hypotheses that share no symbol (transitively) with the goal"""
    def syms(e):
        seen, out, stack = set(), set(), [e]
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            stack.extend(x.children())
        return out
    items = [(c, syms(c)) for c in pc]
    want = syms(goal)
    used = [False] * len(items)
    ch = True
    while ch:
        ch = False
        for i, (c, s) in enumerate(items):
            if not used[i] and s & want:
                used[i] = True
                if not s <= want:
                    want |= s
                ch = True
    return [c for (c, s), u in zip(items, used) if u]


def num(v):
    """z3 model value -> string for the replay file"""
    if z3.is_rational_value(v):
        f = Fraction(v.numerator_as_long(), v.denominator_as_long())
        return repr(float(f)) if abs(f) < Fraction(10) ** 300 else str(f)
    if z3.is_algebraic_value(v):
        a = v.approx(40)
        return repr(float(Fraction(a.numerator_as_long(), a.denominator_as_long())))
    if z3.is_int_value(v):
        return str(v.as_long())
    if z3.is_bv_value(v):
        return str(v.as_long())
    if z3.is_true(v):
        return "1"
    if z3.is_false(v):
        return "0"
    if z3.is_fp_value(v):
        if v.isNaN():
            return "nan"
        if v.isInf():
            return "-inf" if v.isNegative() else "inf"
        return repr(eval_fp(v))
    return None


def eval_fp(v):
    import struct
    bv = z3.simplify(z3.fpToIEEEBV(v))
    return struct.unpack("<d", struct.pack("<Q", bv.as_long()))[0]


def extract(ex, m):
    out = {}
    if m is None:
        return out
    for name, kind, e in ex.inputs:
        try:
            if kind == "fun":
                fi = m[e]
                if fi is None:
                    continue
                for i in range(fi.num_entries()):
                    en = fi.entry(i)
                    out["%s[%s]" % (name, num(en.arg_value(0)))] = num(en.value())
                out["%s[*]" % name] = num(fi.else_value()) if fi.else_value() is not None else None
                continue
            v = m.eval(e, model_completion=False)
            if v.eq(e):
                continue
            n = num(v)
            if n is not None:
                out[name] = n
        except Exception:
            continue
    return {k: v for k, v in out.items() if v is not None}


def prove(ex, ob, budget):
    if not os.environ.get("VC_TRACE"):
        return prove_(ex, ob, budget)
    t0 = time.time()
    prove_(ex, ob, budget)
    if ob.status == "unknown":
        print(str(ob.goal)[:3000])
    print("TRACE %6.2f %s %s %s" % (time.time() - t0, ob.status, ob.backend, ob.label), flush=True)


def prove_(ex, ob, budget):
    """sets ob.status in {proved, violated, unknown}"""
    t0 = time.time()
    if ob.status == "proved":
        return
    pc = list(ob.pc)
    if not is_sym(ob.goal):
        neg = []
    else:
        g = z3.simplify(ob.goal)
        if z3.is_true(g):
            ob.status, ob.backend = "proved", "simplify"
            return
        for c in pc:
            if c.eq(ob.goal) or c.eq(g):
                ob.status, ob.backend = "proved", "hypothesis"
                return
        neg = [z3.Not(ob.goal)]
    q = pc + neg
    st = sorts(q)
    real = "Real" in st
    if is_sym(ob.goal) and z3.is_eq(ob.goal) and z3.is_real(ob.goal.arg(0)):
        plain = (ex.opaque_ids and Ring(ex, pc, lemmas=False, opaque=True).equal(ob.goal.arg(0), ob.goal.arg(1))
                 or Ring(ex, pc, lemmas=False).equal(ob.goal.arg(0), ob.goal.arg(1)))
        if plain or ex.lemma_ids and Ring(ex, pc).equal(ob.goal.arg(0), ob.goal.arg(1)):
            ob.status, ob.backend, ob.time = "proved", "ring", time.time() - t0
            return
    ob.exact = not has_uf(q)
    rel = relevant(pc, ob.goal) + neg if neg else q
    attempts = []
    nl = "nl" in st
    pure_real = real and "uf" not in st and "Int" not in st and "mixed" not in st and not any(s.startswith("BitVec") or s == "bv" for s in st)
    b = budget
    nra = "qfnra-nlsat" if pure_real else None
    if real and nl:
        attempts = [[("z3", None, rel, 1)], [("z3/qfnra-nlsat", nra, rel, b), ("cvc5", "cvc5", rel, b)] + ([("z3", None, rel, b)] if nra else [])]
        if len(rel) < len(q):
            attempts[1].append(("z3/qfnra-nlsat", nra, q, b))
    else:
        attempts = [[("z3", None, rel, 1)], [("z3", None, rel, b), ("cvc5", "cvc5", rel, b)] + ([("z3", None, q, b)] if len(rel) < len(q) else [])]
        if neg and "bv" in st and not real and z3.is_bool(ob.goal):
            r0, _ = run_z3(rel, 0.5)
            if r0 == "unsat":
                ob.status, ob.backend, ob.time = "proved", "z3", time.time() - t0
                return
            if r0 != "sat":
                from . import bvint
                try:
                    if bvint.prove_int(pc, ob.goal, min(15, b)):
                        ob.status, ob.backend, ob.time = "proved", "bv-as-linear-integers/z3", time.time() - t0
                        return
                except z3.Z3Exception:
                    pass
    # facts stated as lemmas and linear facts alone
    if neg and ex.lemma_ids and any(c.get_id() in ex.lemma_ids for c in pc):
        few = relevant([c for c in pc if c.get_id() in ex.lemma_ids or not (sorts([c]) & {"nl", "uf"})], ob.goal) + neg
        if len(few) < len(rel):
            st2 = sorts(few)
            pr2 = "Real" in st2 and not (st2 & {"uf", "Int", "mixed", "bv"}) and "nl" in st2
            attempts[:0] = [[("z3", None, few, 1)], [("cvc5", "cvc5", few, min(5, b))] + ([("z3/qfnra-nlsat", "qfnra-nlsat", few, min(5, b))] if pr2 else [])]

    def one(name, tac, qq, to):
        if tac == "cvc5":
            r = run_cvc5(qq, to)
            return ("unknown" if r == "sat" else r), None     # no model extraction: z3 has to confirm
        r, m = run_z3(qq, to, tac)
        if r == "sat" and qq is not rel and qq is not q:
            r = "unknown"
        return r, extract(ex, m) if m is not None else None

    def done(status, backend, model=None):
        ob.status, ob.backend, ob.time, ob.model = status, backend, time.time() - t0, model

    for group in attempts:
        if len(group) == 1 and group[0][3] <= 1:
            r, m = one(*group[0])
            w = 0
        else:
            to = max(g[3] for g in group)
            won = portfolio([lambda g=g: one(*g) for g in group], to, lambda x: x[0] in ("unsat", "sat"))
            if won is None:
                continue
            w, (r, m) = won
        name, _, qq, _ = group[w]
        if r == "unsat":
            return done("proved", name)
        if r == "sat":
            if qq is rel and len(rel) < len(q):
                # confirm with the full path condition
                won = portfolio([lambda: one("z3", nra if (real and nl) else None, q, b)], b, lambda x: True)
                r2, m2 = won[1] if won else ("unknown", None)
                if r2 == "unsat":
                    return done("proved", "z3")
                if r2 == "sat":
                    m = m2 or m
            return done("violated", name, m or {})
    done("unknown", "")
