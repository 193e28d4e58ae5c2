"""Translation of canonical expressions and conditions to z3, and the queries."""
import time
from fractions import Fraction
import z3
from . import sem
from .sem import ATOMS, Poly, Cond, Special, is_const, UNDEF

STATS = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "time": 0.0}


class Enc:
    def __init__(self):
        self.av = {}
        self.pv = {}
        self.cv = {}
        self.ax = []
        self.ufs = {}
        self.keep = []

    def num(self, c):
        f = Fraction(c)
        return z3.RealVal("%d/%d" % (f.numerator, f.denominator)) if f.denominator != 1 else z3.RealVal(f.numerator)

    def poly(self, p):
        if is_const(p): return self.num(p)
        if not isinstance(p, Poly): raise sem.Unsupported("encode %r" % (p,))
        r = self.pv.get(p)
        if r is None:
            ts = []
            for m, c in p.t.items():
                fs = []
                if c != 1 or not m: fs.append(self.num(c))
                for i, e in m:
                    if e > 0: fs.extend([self.atom(i)] * e)
                    else: fs.extend([self.inv_of(i)] * -e)
                x = fs[0]
                for y in fs[1:]: x = x * y
                ts.append(x)
            r = ts[0] if len(ts) == 1 else z3.Sum(ts)
            self.pv[p] = r
        return r

    def inv_of(self, i):
        r = self.av.get(("inv", i))
        if r is None:
            r = self.av[("inv", i)] = z3.Real("inv!%d" % i)
            self.ax.append(r * self.atom(i) == 1)
        return r

    def uf(self, name, n):
        k = (name, n)
        f = self.ufs.get(k)
        if f is None: f = self.ufs[k] = z3.Function("uf_" + name, *([z3.RealSort()] * (n + 1)))
        return f

    def atom(self, i):
        r = self.av.get(i)
        if r is not None: return r
        a = ATOMS[i]
        k = a.kind
        A = lambda n: self.poly(a.args[n])
        if k == "var": r = z3.Real(a.name)
        elif k == "inv":
            r = z3.Real("inv#%d" % i)
            d = A(0)
            self.av[i] = r
            self.ax.append(r * d == 1)
        elif k == "ite": r = z3.If(self.cond(a.args[0]), A(1), A(2))
        elif k == "exp":
            r = z3.Real("exp#%d" % i); x = A(0)
            self.ax += [r > 0, z3.Implies(x > 0, r > 1), z3.Implies(x < 0, r < 1), z3.Implies(x == 0, r == 1), r >= 1 + x]
        elif k == "log":
            r = self.uf("log", 1)(A(0))
        elif k == "sqrt":
            r = z3.Real("sqrt#%d" % i); x = A(0)
            self.ax += [r >= 0, z3.Implies(x >= 0, r * r == x)]
        elif k == "floor": r = z3.ToReal(z3.ToInt(A(0)))
        elif k == "ceil": r = -z3.ToReal(z3.ToInt(-A(0)))
        elif k == "trunc":
            x = A(0); r = z3.If(x >= 0, z3.ToReal(z3.ToInt(x)), -z3.ToReal(z3.ToInt(-x)))
        elif k == "round":
            x = A(0); h = z3.RealVal("1/2"); r = z3.If(x >= 0, z3.ToReal(z3.ToInt(x + h)), -z3.ToReal(z3.ToInt(-x + h)))
        elif k == "rint":
            r = z3.ToReal(z3.Int("rint#%d" % i)); x = A(0)
            self.ax += [r - x <= z3.RealVal("1/2"), x - r <= z3.RealVal("1/2")]
        elif k == "pow2":
            r = z3.Real("pow2#%d" % i); self.ax.append(r > 0)
        elif k == "app":
            r = self.uf(a.name, len(a.args))(*[A(n) for n in range(len(a.args))])
        else: raise sem.Unsupported("encode atom " + k)
        self.av[i] = r
        return r

    def cond(self, c):
        if c is True or c is False: return z3.BoolVal(c)
        r = self.cv.get(c.id)
        if r is None:
            if c.op == "lt": r = self.poly(c.args[0]) < 0
            elif c.op == "eq": r = self.poly(c.args[0]) == 0
            elif c.op == "not": r = z3.Not(self.cond(c.args[0]))
            else: r = z3.And(self.cond(c.args[0]), self.cond(c.args[1]))
            self.cv[c.id] = r
        return r


def solve(build, timeout_ms=10000, tactic=None):
    """build(enc) -> list of z3 constraints; returns (result string, model or None, enc)"""
    e = Enc()
    cs = build(e)
    s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
    s.set("timeout", timeout_ms)
    s.add(*cs)
    s.add(*e.ax)
    t = time.time()
    r = s.check()
    STATS["time"] += time.time() - t
    STATS["queries"] += 1
    STATS[str(r)] += 1
    return str(r), (s.model() if r == z3.sat else None), e


def check_conds(pc, assume=(), timeout_ms=3000):
    if any(c is False for c in pc): return "unsat"
    try:
        return solve(lambda e: [e.cond(c) for c in list(pc) + list(assume)], timeout_ms)[0]
    except z3.Z3Exception:
        return "unknown"


def model_point(model, enc, names):
    """variable assignment of a model as floats"""
    out = {}
    for n in names:
        v = model.eval(z3.Real(n), model_completion=True)
        try:
            if z3.is_algebraic_value(v): v = v.approx(20)
            out[n] = float(v.as_fraction())
        except Exception:
            out[n] = 0.0
    return out


# ------------------------------------------------------------------------------- approximate canonical form
def rnd(c, digits):
    if c == 0: return 0
    f = float(c)
    try: return sem.norm(Fraction("%.*e" % (digits - 1, f)))
    except Exception: return c

def approx(v, digits=6, memo=None):
    """the same expression with every coefficient rounded to `digits` significant digits (recursively)"""
    if memo is None: memo = {}
    if is_const(v): return rnd(v, digits)
    if isinstance(v, Cond):
        k = ("c", v.id)
        if k in memo: return memo[k]
        if v.op in ("lt", "eq"):
            p = approx(v.args[0], digits, memo)
            r = sem.c_lt0(p) if v.op == "lt" else sem.c_eq0(p)
        elif v.op == "not": r = sem.c_not(approx(v.args[0], digits, memo))
        else: r = sem.c_and(approx(v.args[0], digits, memo), approx(v.args[1], digits, memo))
        memo[k] = r
        return r
    if v is True or v is False or isinstance(v, Special): return v
    if v in memo: return memo[v]
    res = {}
    extra = 0
    for m, c in v.t.items():
        c2 = rnd(c, digits)
        f = None
        rest = []
        for i, e in m:
            x = approx_atom(i, digits, memo)
            if x is None: rest.append((i, e)); continue
            if e < 0: x = sem.inverse(x); e = -e
            for _ in range(e): f = x if f is None else sem.mul(f, x)
        if f is None:
            res[m] = sem.norm(res.get(m, 0) + c2)
        else:
            extra = sem.add(extra, sem.mul(f, Poly({tuple(rest): c2}) if rest else c2))
    r = sem.add(sem.mk({m: c for m, c in res.items() if c != 0}), extra)
    memo[v] = r
    return r

def approx_atom(i, digits, memo):
    k = ("a", i)
    if k in memo: return memo[k]
    a = ATOMS[i]
    r = None
    if a.args:
        na = [approx(x, digits, memo) for x in a.args]
        if any(x is not y and x != y for x, y in zip(na, a.args)): r = sem.rebuild(a, na)
    memo[k] = r
    return r

def same_upto(a, b, rel=2e-6):
    """canonical forms agree term by term up to a relative coefficient difference (no residual terms)"""
    if is_const(a) and is_const(b):
        return abs(a - b) <= rel * max(abs(a), abs(b), Fraction(1, 10**12)) if a != b else True
    ta, tb = sem.terms(a), sem.terms(b)
    if ta.keys() != tb.keys(): return False
    for m, c in ta.items():
        d = tb[m]
        if c != d and abs(c - d) > rel * max(abs(c), abs(d)): return False
    return True
