"""Vectorised exponentials: range reduction k = floor(a*y + b), polynomial Q(y, k), result Q * 2^k.

The executor delivers the exact real function Q(y, k) * pow2(k).  A lemma, proved by z3 for every k that the range of y admits and for
every real y with that k, states |Q(y,k) 2^k - exp(y)| <= EPS exp(y).  The expression is then rewritten to aexp(y): a value known
to be within that relative distance of exp(y), and the assertion is decided with that contract.
"""
import math, os, json, hashlib
from fractions import Fraction
import z3
from . import sem, smt
from .sem import ATOMS, Poly, is_const

EPS = Fraction(1, 4 * 10**6)          # 2.5e-7: single precision accuracy of the real-valued algorithm
LN2 = Fraction("0.693147180559945309417232121458176568")
CACHE = None                          # directory


class NoLemma(Exception):
    def __init__(self, msg, point=None):
        Exception.__init__(self, msg); self.point = point


def has_pow2(v):
    return any(ATOMS[i].kind == "pow2" for i in sem.all_atoms(v))


def prove(Q, alpha, beta, lo, hi, kind):
    """Q: {(ey, ek): coeff}.  True when |Q(y,k) 2^k - exp(y)| <= EPS exp(y) for all lo <= y <= hi"""
    key = hashlib.sha1(repr((sorted((k, str(v)) for k, v in Q.items()), str(alpha), str(beta), str(lo), str(hi), kind)).encode()).hexdigest()
    cf = os.path.join(CACHE, "lemma_" + key) if CACHE else None
    if cf and os.path.exists(cf):
        r = json.load(open(cf))
        return r["ok"], r["msg"], r["n"]
    d = {"floor": (0, 1), "rint": (Fraction(-1, 2), Fraction(1, 2)), "round": (Fraction(-1, 2), Fraction(1, 2)), "trunc": (-1, 1), "ceil": (-1, 0)}[kind]
    kmin = math.floor(alpha * lo + beta - d[1]); kmax = math.ceil(alpha * hi + beta - d[0])
    ok, msg, n = True, "", 0
    e = smt.Enc()
    for k in range(kmin, kmax + 1):
        # y with alpha*y + beta - k in [d0, d1]
        y0 = max(lo, (k + d[0] - beta) / alpha); y1 = min(hi, (k + d[1] - beta) / alpha)
        if kind == "floor" and y1 == (k + 1 - beta) / alpha: pass
        if y0 > y1 or (kind == "floor" and y0 == (k + 1 - beta) / alpha): continue
        if y0 == y1 and y0 == hi and k > alpha * hi + beta: continue
        if k > 127 or k < -127: ok, msg = False, "exponent %d out of range" % k; break
        # s = y - k*LN2; exp(y) = 2^k exp(s) (1 + tiny)
        s0, s1 = y0 - k * LN2, y1 - k * LN2
        if max(abs(s0), abs(s1)) > Fraction(4, 5): ok, msg = False, "range reduction leaves |r| up to %.3f" % max(abs(s0), abs(s1)); break
        # q(s) = Q(s + k*LN2, k)
        q = {}
        for (ey, ek), c in Q.items():
            cc = Fraction(c) * Fraction(k) ** ek
            for j in range(ey + 1): q[j] = q.get(j, 0) + cc * math.comb(ey, j) * (k * LN2) ** (ey - j)
        s = z3.Real("s")
        def poly(t):
            r = z3.RealVal(0)
            for j in sorted(t, reverse=True): pass
            top = max(t)
            r = e.num(t.get(top, 0))
            for j in range(top - 1, -1, -1): r = r * s + e.num(t.get(j, 0))
            return r
        N = 12
        T = {j: Fraction(1, math.factorial(j)) for j in range(N)}
        rem = Fraction(9, 10) ** N / math.factorial(N) * 3
        eps = EPS - Fraction(1, 10**15)
        # |q - exp| <= eps*exp  is implied by  |q - T| + rem <= eps*(T - rem)
        q = {j: round_q(c) for j, c in q.items()}
        up = {j: q.get(j, 0) - (1 + eps) * T.get(j, 0) for j in set(q) | set(T)}
        dn = {j: q.get(j, 0) - (1 - eps) * T.get(j, 0) for j in set(q) | set(T)}
        sol = z3.Tactic("qfnra-nlsat").solver()
        sol.set("timeout", 20000)
        slack = 2 * rem + Fraction(1, 10**14)
        sol.add(s >= e.num(s0), s <= e.num(s1), z3.Or(poly(up) + e.num(slack) > 0, poly(dn) - e.num(slack) < 0))
        import time
        t = time.time(); r = sol.check(); smt.STATS["time"] += time.time() - t; smt.STATS["queries"] += 1; smt.STATS[str(r)] += 1; n += 1
        if r != z3.unsat:
            ok, msg = False, "k=%d: %s" % (k, r)
            break
    if cf:
        json.dump({"ok": ok, "msg": msg, "n": n}, open(cf + ".%d" % os.getpid(), "w")); os.rename(cf + ".%d" % os.getpid(), cf)
    return ok, msg, n


def round_q(c):
    """coefficients rounded to 40 digits (error far below the slack)"""
    return Fraction(round(c * 10**40), 10**40)


def bounds_of(y):
    """constant bounds of the clamped argument, proved by z3"""
    cs = []
    z = y
    while isinstance(z, Poly) and len(z.t) == 1:
        (m, c), = z.t.items()
        if c != 1 or len(m) != 1 or m[0][1] != 1 or ATOMS[m[0][0]].kind != "ite": break
        a = ATOMS[m[0][0]]
        if is_const(a.args[1]): cs.append(a.args[1]); z = a.args[2]
        elif is_const(a.args[2]): cs.append(a.args[2]); z = a.args[1]
        else: break
    if len(cs) < 2: raise NoLemma("the argument of the vectorised exponential is not clamped on both sides")
    lo, hi = min(cs), max(cs)
    lo, hi = Fraction(lo), Fraction(hi)
    r, _, _ = smt.solve(lambda e: [z3.Or(e.poly(y) < e.num(lo), e.poly(y) > e.num(hi))], 20000)
    if r != "unsat": raise NoLemma("bounds of the exponential's argument: " + r)
    return lo, hi


def rewrite(v, memo, info):
    """replaces Q*pow2 groups by aexp atoms"""
    if not isinstance(v, Poly): return v
    if v in memo: return memo[v]
    # nested atoms first (except inside floor/ite of the clamp, which have no pow2)
    mp = {}
    for m in v.t:
        for i, _ in m:
            a = ATOMS[i]
            if i in mp or a.kind == "pow2" or not a.args: continue
            if any(isinstance(x, Poly) and has_pow2(x) or isinstance(x, sem.Cond) and has_pow2(x) for x in a.args):
                if a.kind not in ("inv", "log", "ite"): raise NoLemma("pow2 inside " + a.kind)
                if a.kind == "ite": raise NoLemma("pow2 inside a condition or selection")
                mp[i] = sem.rebuild(a, [rewrite(x, memo, info) for x in a.args])
    groups = {}
    out = 0
    for m, c in v.t.items():
        p2 = [(i, e) for i, e in m if ATOMS[i].kind == "pow2"]
        if not p2:
            t = Poly({m: c})
            out = sem.add(out, sem.subst(t, mp) if any(i in mp for i, _ in m) else t) if m else sem.add(out, c)
            continue
        if len(p2) != 1 or p2[0][1] != 1: raise NoLemma("product of two powers")
        pid = p2[0][0]
        y, F, alpha, beta, kind = shape(pid)
        ey = ek = 0
        rest = []
        for i, e in m:
            if i == y: ey = e
            elif i == F: ek = e
            elif i != pid: rest.append((i, e))
        groups.setdefault((pid, tuple(rest)), {})[(ey, ek)] = c
    for (pid, rest), Q in groups.items():
        y, F, alpha, beta, kind = shape(pid)
        c0 = Q.get((0, 0), 0)
        if c0 == 0: raise NoLemma("no constant term")
        # the scale: nearest simple multiple (1 for exp itself)
        sc = info.setdefault("scales", {}).get(pid)
        Qn = {k: Fraction(c) / c0 for k, c in Q.items()}
        scale = c0
        n0 = Fraction(round(c0)) if round(c0) and abs(c0 - round(c0)) < Fraction(1, 1000) else None
        if n0 is not None: Qn = {k: Fraction(c) / n0 for k, c in Q.items()}; scale = n0
        yp = sem.of_atom(ATOMS[y])
        lo, hi = info.setdefault("bounds", {}).get(y) or bounds_of(yp)
        info["bounds"][y] = (lo, hi)
        ok, msg, n = prove(Qn, alpha, beta, lo, hi, kind)
        info["lemmas"] = info.get("lemmas", 0) + n
        if not ok: raise NoLemma("the vectorised exponential is not accurate: " + msg)
        ae = sem.of_atom(sem.atom("aexp", "", (yp,), 3))
        t = sem.mul(sem.norm(scale), ae)
        if rest: t = sem.mul(t, sem.subst(Poly({rest: 1}), mp))
        out = sem.add(out, t)
    memo[v] = out
    return out


def shape(pid):
    a = ATOMS[pid].args[0]
    if is_const(a) or len(a.t) != 1: raise NoLemma("exponent is not an integer part")
    (m, c), = a.t.items()
    if c != 1 or len(m) != 1 or m[0][1] != 1: raise NoLemma("exponent is not an integer part")
    F = ATOMS[m[0][0]]
    if F.kind not in ("floor", "rint", "round", "trunc", "ceil"): raise NoLemma("exponent is not an integer part")
    arg = F.args[0]
    ms = [k for k in arg.t if k]
    if len(ms) != 1 or len(ms[0]) != 1 or ms[0][0][1] != 1: raise NoLemma("argument of the integer part")
    return ms[0][0][0], F.id, Fraction(arg.t[ms[0]]), Fraction(arg.t.get((), 0)), F.kind


def exp_bounds(c):
    """rational enclosure of exp(c), relative width 1e-9"""
    v = Fraction(math.exp(float(c)))
    return v * (1 - Fraction(1, 10**9)), v * (1 + Fraction(1, 10**9))


def exp_facts(e, c):
    """consequences, for the exp atoms, of a linear path condition"""
    neg = False
    if c.op == "not": neg, c = True, c.args[0]
    if c.op != "lt": return []
    p = c.args[0]
    k0 = p.t.get((), 0)
    nc = {m: v for m, v in p.t.items() if m}
    lead = abs(nc[min(nc, key=lambda m: (len(m), m))])
    u = sem.mk({m: sem.norm(Fraction(v) / lead) for m, v in nc.items()})
    k = -Fraction(k0) / lead                       # u < k
    E = e.poly(sem.f_exp(u))
    lo, hi = exp_bounds(k)
    return [E >= e.num(lo)] if neg else [E <= e.num(hi)]


def decide(got, want, conds, rel, ab, timeout, depth=0):
    """|got - want| <= rel*|want| + ab, got containing aexp atoms"""
    c = sem.split_cond([got, want]) if depth < 10 else None
    if c is not None:
        for val in (True, False):
            cc = c if val else sem.c_not(c)
            if smt.check_conds(list(conds) + [cc]) == "unsat": continue
            memo = {}
            mp = {("c", c.id): val}
            r = decide(sem.subst(got, mp, memo), sem.subst(want, mp, memo), list(conds) + [cc], rel, ab, timeout, depth + 1)
            if r != "unsat": return r
        return "unsat"
    def q(e):
        cs = []
        mp = {}
        for i in sem.all_atoms(got):
            a = ATOMS[i]
            if a.kind != "aexp": continue
            y = a.args[0]
            D = z3.Real("D#%d" % i)
            if is_const(y):
                lo, hi = exp_bounds(y)
                Y = z3.Real("Y#%d" % i)
                cs += [Y >= e.num(lo), Y <= e.num(hi)]
            else:
                Y = e.poly(sem.f_exp(y))
                cs += [Y > 0]
            cs += [D <= e.num(EPS) * Y, -D <= e.num(EPS) * Y]
            e.av[i] = Y + D
        for x in conds: cs += [e.cond(x)] + exp_facts(e, x)
        g, w = e.poly(got), e.poly(want)
        aw = z3.If(w >= 0, w, -w)
        tol = e.num(rel) * aw + e.num(ab)
        return cs + [z3.Or(g - w > tol, w - g > tol)]
    r, mdl, enc = smt.solve(q, timeout)
    if r == "unknown":
        r, mdl, enc = smt.solve(q, timeout, "qfnra-nlsat")
    return r


def decide_softmax(got, want, conds, rel, ab, timeout):
    """softmax form: got = A_i / sum_j A_j with A_j the vectorised exponential of u_j = x_j - mx (or exactly exp(u_j)),
    want = exp(x_i) / sum_j exp(x_j).  Contract per term: |A_j - exp(u_j)| <= EPS exp(u_j) + 1e-37, proved below from the lemma and the
    clamp; the quotient follows from |sum d_j| <= EPS S + n 1e-37 and S >= 1 (one u_j is 0: mx is one of the x)."""
    global _sm
    key = frozenset(ATOMS[i].id for i in sem.all_atoms(got) if ATOMS[i].kind == "aexp")
    ctx = _sm.get(key)
    tiny = Fraction(1, 10**37)
    # W: denominator of the definition
    winv = [(m, i, e) for m in want.t for i, e in m if ATOMS[i].kind == "inv"]
    if len(want.t) != 1 or len(winv) != 1: return "definition not a quotient"
    W = ATOMS[winv[0][1]].args[0]
    if ctx is None:
        mp, dof = {}, {}
        mx = None
        for i in sorted(key):
            y = ATOMS[i].args[0]
            u = unclamp(y)
            r, _, _ = smt.solve(lambda e: [e.poly(u) > 0], timeout)
            if r != "unsat": return "an exponent may be positive: " + r
            uv = z3.Real("u!"); 
            def q(e):                       # y = u above -88, y <= -88 below (the clamp as a function of u only)
                ue = e.poly(u); ye = clamp_z3(e, y, u, uv)
                return [uv <= 0, z3.Or(z3.And(uv >= -87, ye != uv), z3.And(uv < -87, ye > -87), z3.And(uv < -87, ye < -100))]
            r, _, _ = smt.solve(q, timeout)
            if r != "unsat": return "the clamp changes the argument: " + r
            d = sem.of_atom(sem.atom("var", "dexp#%d" % i, ()))
            mp[i] = sem.add(sem.f_exp(u), d)
            dof[next(iter(d.t))[0][0]] = u
        ctx = _sm[key] = (mp, dof)
        # one of the arguments is zero
        xs = []
        for m in W.t: xs.append(m)
        u0 = next(iter(dof.values()))
        # exp atoms of W carry the arguments x_k (up to a common factor)
        exps = [ATOMS[j].args[0] for m in W.t for j, e in m if ATOMS[j].kind == "exp"]
        allx = {x for x in exps}
        for j in sem.all_atoms(want):
            if ATOMS[j].kind == "exp": allx.add(ATOMS[j].args[0])
        mxs = [sem.sub(x, u0) for x in allx]            # mx = x_j - u_j for the j of u0
        cand = None
        for x in allx:
            c = sem.sub(x, u0)
            if x not in sem_parts(u0): continue
            cand = c
        if cand is None: return "shift not found"
        r, _, _ = smt.solve(lambda e: [e.poly(cand) != e.poly(x) for x in allx], timeout)
        if r != "unsat": return "the shift is not one of the elements: " + r
        # sum of the deviations
        n = len(dof)
        ds = [z3.Real("d%d" % k) for k in range(n)]; es = [z3.Real("e%d" % k) for k in range(n)]
        r, _, _ = smt.solve(lambda e: [z3.And(es[k] > 0, ds[k] <= e.num(EPS) * es[k] + e.num(tiny), -ds[k] <= e.num(EPS) * es[k] + e.num(tiny)) for k in range(n)] +
                            [z3.Or(z3.Sum(ds) > e.num(EPS) * z3.Sum(es) + e.num(n * tiny), -z3.Sum(ds) > e.num(EPS) * z3.Sum(es) + e.num(n * tiny))], timeout)
        if r != "unsat": return "sum of deviations: " + r
    mp, dof = ctx
    g = sem.subst(got, mp)
    ginv = set(i for m in g.t for i, e in m if ATOMS[i].kind == "inv")
    if len(ginv) != 1: return "not a quotient"
    gi = ginv.pop()
    den = ATOMS[gi].args[0]
    num = sem.mul(g, sem.inverse(sem.of_atom(ATOMS[gi])))
    den0 = sem.subst(den, {d: 0 for d in dof}); num0 = sem.subst(num, {d: 0 for d in dof})
    # exact parts: num0/den0 = want
    if not sem.mul(num0, W) == sem.mul(sem.mul(want, W_inv(W)), den0): return "quotient of the exact parts differs from the definition"
    # deviations: den - den0 = F * sum of d_j (some subset, each once), num - num0 = F * d_i or 0, den0 = F * sum exp(u_j)
    dd = sem.sub(den, den0); nd = sem.sub(num, num0)
    ud = {d: sem.f_exp(u) for d, u in dof.items()}
    F = None
    if not is_const(dd):
        for d in dof:
            c = coeff(dd, d)
            if c == 0: continue
            if F is None: F = c
            if c != F: return "deviations enter the sum differently"
    if F is None: return "no deviation"
    S = sem.div(den0, F) if len(F.t if not is_const(F) else [1]) == 1 else None
    if S is None: return "factor"
    # every exp(u_j) with a deviation occurs in S with coefficient one
    if sem.is_const(S): return "sum"
    for d, eu in ud.items():
        if coeff(dd, d) != 0:
            for m, c in eu.t.items():
                if S.t.get(m) != c: return "term of the sum"
    if any(c <= 0 for c in S.t.values()): return "sign of the sum"
    ei = sem.div(num0, F)
    if nd == 0: di = None
    else:
        hit = [d for d in dof if coeff(nd, d) != 0]
        if len(hit) != 1 or coeff(nd, hit[0]) != F or ud[hit[0]] != ei: return "deviation of the numerator"
        di = hit[0]
    s, t, e_, d_ = z3.Reals("s t e d")
    n = len(dof)
    def fin(e):
        N = e.num
        tol = N(rel) * e_ * (s + t) + N(ab) * s * (s + t)        # |got - want| <= rel*want + ab, times s (s+t)
        lhs = (e_ + d_) * s - e_ * (s + t)
        return [s >= 1, e_ > 0, e_ <= 1, e_ <= s, t <= N(EPS) * s + N(n * tiny), -t <= N(EPS) * s + N(n * tiny),
                d_ <= N(EPS) * e_ + N(tiny), -d_ <= N(EPS) * e_ + N(tiny)] + ([d_ == 0] if di is None else []) + [z3.Or(lhs > tol, -lhs > tol)]
    k = ("fin", n, di is None)
    r = _sm.get(k)
    if r is None:
        r, _, _ = smt.solve(fin, timeout, "qfnra-nlsat")
        _sm[k] = r
    return r

_sm = {}

def coeff(p, d):
    """coefficient of the first power of atom d"""
    if is_const(p): return 0
    t = {}
    for m, c in p.t.items():
        for i, e in m:
            if i == d:
                if e != 1: return None
                t[tuple(x for x in m if x[0] != d)] = c
    return sem.mk(t)

def W_inv(W):
    """the factor that turns inv(W)*... into its numerator"""
    return sem.inverse(sem.of_atom(sem.atom("inv", "", (W,))))

def sem_parts(u):
    return {sem.mk({m: 1}) for m, c in u.t.items() if c == 1}

def clamp_z3(e, y, u, uv):
    """the clamp expression with its argument u replaced by the variable uv"""
    if y == u: return uv
    if is_const(y): return e.num(y)
    (m, c), = y.t.items()
    a = ATOMS[m[0][0]]
    return z3.If(cond_z3(e, a.args[0], u, uv), clamp_z3(e, a.args[1], u, uv), clamp_z3(e, a.args[2], u, uv))

def cond_z3(e, c, u, uv):
    if c.op == "not": return z3.Not(cond_z3(e, c.args[0], u, uv))
    if c.op == "and": return z3.And(cond_z3(e, c.args[0], u, uv), cond_z3(e, c.args[1], u, uv))
    p = c.args[0]
    # p = k*v + c0 with v = u or an inner clamp
    base, k = None, None
    ui = unclamp_chain(u, p)
    for v in ui:
        vm = {m: x for m, x in (v.t.items()) if m}
        m0 = next(iter(vm))
        if m0 in p.t:
            k = Fraction(p.t[m0]) / vm[m0]
            r = sem.sub(p, sem.mul(sem.norm(k), v))
            if is_const(r): base = v; break
    if base is None: raise NoLemma("clamp condition")
    val = e.num(k) * clamp_z3(e, base, u, uv) + e.num(r)
    return val < 0 if c.op == "lt" else val == 0

def unclamp_chain(u, p):
    """candidates: u itself and the ite atoms in p"""
    return [u] + [sem.of_atom(ATOMS[i]) for m in p.t for i, x in m if ATOMS[i].kind == "ite"]


def unclamp(y):
    """the argument inside min/max with constants"""
    while isinstance(y, Poly) and len(y.t) == 1:
        (m, c), = y.t.items()
        if c != 1 or len(m) != 1 or m[0][1] != 1 or ATOMS[m[0][0]].kind != "ite": return y
        a = ATOMS[m[0][0]]
        x, z = a.args[1], a.args[2]
        if is_const(x): y = z
        elif is_const(z): y = x
        else: return y
    return y
