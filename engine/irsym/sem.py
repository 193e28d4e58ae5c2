"""Value domain of the symbolic executor: real-valued expressions and conditions over them.

A float is a Python int/Fraction (concrete) or a Poly: a canonical Laurent polynomial  {monomial: coefficient}  over
interned atoms.  A monomial is a sorted tuple of (atom id, exponent).  Atoms are input variables, uninterpreted
applications, if-then-else nodes, inverses of polynomials, exp/log/sqrt/floor/... nodes.  Canonical form makes the two sides of
most checks identical terms before the solver sees them; everything else is decided by z3 (see smt.py).
"""
from fractions import Fraction

NEG, POS = -1, 1


class Undef:
    __slots__ = ()
    def __repr__(self): return "undef"

UNDEF = Undef()


class Special:
    """NaN / infinities as constants (never mixed with real arithmetic)."""
    __slots__ = ("kind",)
    def __init__(self, kind): self.kind = kind
    def __repr__(self): return self.kind

NAN, PINF, NINF = Special("nan"), Special("inf"), Special("-inf")


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("id", "kind", "name", "args", "flags")
    def __init__(self, id, kind, name, args, flags):
        self.id, self.kind, self.name, self.args, self.flags = id, kind, name, args, flags
    def __repr__(self):
        if self.kind == "var": return self.name
        return "%s%s(%s)" % (self.kind, ":" + self.name if self.name else "", ", ".join(map(str, self.args)))

ATOMS = []
_atom_ix = {}

def atom(kind, name, args, flags=0):
    """flags: 1 = known positive, 2 = known non-zero"""
    key = (kind, name, tuple(key_of(a) for a in args))
    a = _atom_ix.get(key)
    if a is None:
        a = Atom(len(ATOMS), kind, name, args, flags)
        ATOMS.append(a)
        _atom_ix[key] = a
    return a

def reset():
    ATOMS.clear(); _atom_ix.clear(); _cond_ix.clear()

def key_of(v):
    if isinstance(v, Poly): return v.key()
    if isinstance(v, Cond): return ("c", v.id)
    return v


_depth = 0
class Poly:
    __slots__ = ("t", "_key")
    def __init__(self, t):
        self.t = t
        self._key = None
    def key(self):
        k = self._key
        if k is None:
            k = self._key = frozenset(self.t.items())
        return k
    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t
    def __ne__(self, o):
        return not self.__eq__(o)
    def __hash__(self):
        return hash(self.key())
    def __repr__(self):
        global _depth
        if _depth > 6: return "..."
        _depth += 1
        try: return self._repr()
        finally: _depth -= 1
    def _repr(self):
        out = []
        for m, c in list(self.t.items())[:12]:
            out.append("%s%s" % (c if abs(c.denominator) < 10**6 else float(c),
                                 "".join("*%s%s" % (ATOMS[i], "^%d" % e if e != 1 else "") for i, e in m)))
        if len(self.t) > 12: out.append("...(%d terms)" % len(self.t))
        return " + ".join(out)


def norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c

def is_const(v):
    return type(v) is int or type(v) is Fraction

def mk(t):
    if not t: return 0
    if len(t) == 1:
        c = t.get(())
        if c is not None: return norm(c)
    return Poly(t)

def of_atom(a):
    return Poly({((a.id, 1),): 1})

def var(name):
    return of_atom(atom("var", name, ()))

def terms(v):
    if is_const(v):
        return {(): v} if v != 0 else {}
    return v.t

def _bad(*vs):
    for v in vs:
        if v is UNDEF: return UNDEF
    for v in vs:
        if isinstance(v, Special): return v
    return None

def check_num(*vs):
    for v in vs:
        if not (is_const(v) or isinstance(v, Poly)):
            raise Unsupported("non-real operand %r" % (v,))

def spec_arith(op, a, b):
    """Arithmetic with an infinite or NaN constant (only fully concrete cases)."""
    import math
    def f(x):
        if isinstance(x, Special): return {"nan": math.nan, "inf": math.inf, "-inf": -math.inf}[x.kind]
        if is_const(x): return float(x)
        raise Unsupported("infinity in symbolic arithmetic")
    x, y = f(a), f(b)
    try:
        r = x + y if op == "+" else x - y if op == "-" else x * y if op == "*" else x / y
    except ZeroDivisionError:
        r = math.nan if x == 0 or x != x else math.inf * (1 if x > 0 else -1)
    return from_py(r)

def from_py(r):
    if r != r: return NAN
    if r in (float("inf"), float("-inf")): return PINF if r > 0 else NINF
    return norm(Fraction(r))

def add(a, b):
    if a.__class__ is not Poly and b.__class__ is not Poly:
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, Special) or isinstance(b, Special): return spec_arith("+", a, b)
        return norm(a + b)
    if a is UNDEF or b is UNDEF: return UNDEF
    if isinstance(a, Special) or isinstance(b, Special): return a if isinstance(a, Special) else b
    ta, tb = terms(a), terms(b)
    if len(ta) < len(tb): ta, tb = tb, ta
    t = dict(ta)
    for m, c in tb.items():
        o = t.get(m)
        if o is None: t[m] = c
        else:
            s = norm(o + c)
            if s == 0: del t[m]
            else: t[m] = s
    return mk(t)

def neg(a):
    if a is UNDEF: return UNDEF
    if isinstance(a, Special): return spec_arith("*", a, -1)
    if is_const(a): return -a
    return Poly({m: -c for m, c in a.t.items()})

def sub(a, b):
    if a.__class__ is not Poly and b.__class__ is not Poly:
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, Special) or isinstance(b, Special): return spec_arith("-", a, b)
        return norm(a - b)
    return add(a, neg(b))

def mono_mul(m, n):
    if not m: return n
    if not n: return m
    out = []
    i = j = 0
    lm, ln = len(m), len(n)
    while i < lm and j < ln:
        x, y = m[i], n[j]
        if x[0] < y[0]: out.append(x); i += 1
        elif x[0] > y[0]: out.append(y); j += 1
        else:
            e = x[1] + y[1]
            if e: out.append((x[0], e))
            i += 1; j += 1
    out.extend(m[i:]); out.extend(n[j:])
    return tuple(out)

LIMIT = 400000

def mul(a, b):
    if a is UNDEF or b is UNDEF: return UNDEF
    if isinstance(a, Special) or isinstance(b, Special): return spec_arith("*", a, b)
    if is_const(a):
        if is_const(b): return norm(a * b)
        if a == 0: return 0
        if a == 1: return b
        return Poly({m: norm(c * a) for m, c in b.t.items()})
    if is_const(b):
        return mul(b, a)
    ta, tb = a.t, b.t
    if len(ta) * len(tb) > LIMIT: raise Unsupported("polynomial product too large (%d x %d)" % (len(ta), len(tb)))
    t = {}
    fix = False
    for m, c in ta.items():
        for n, d in tb.items():
            k = mono_mul(m, n)
            o = t.get(k)
            s = norm(c * d) if o is None else norm(o + c * d)
            if s == 0: t.pop(k, None)
            else: t[k] = s
    return reduce_sqrt(mk(t))

def reduce_sqrt(p):
    """sqrt atoms squared collapse to their argument."""
    if is_const(p): return p
    hit = None
    for m in p.t:
        for i, e in m:
            if (e >= 2 or e <= -2) and ATOMS[i].kind == "sqrt":
                hit = 1; break
        if hit: break
    if not hit: return p
    res = 0
    for m, c in p.t.items():
        cur = Poly({(): c}) if False else c
        rest = []
        acc = c
        for i, e in m:
            if ATOMS[i].kind == "sqrt" and abs(e) >= 2:
                arg = ATOMS[i].args[0]
                h = abs(e) // 2
                for _ in range(h):
                    acc = mul(acc, arg) if e > 0 else div(acc, arg)
                r = abs(e) % 2
                if r: rest.append((i, 1 if e > 0 else -1))
            else: rest.append((i, e))
        term = acc if not rest else mul(acc, Poly({tuple(rest): 1}))
        res = add(res, term)
    return res

def inverse(p):
    if p is UNDEF: return UNDEF
    if is_const(p):
        if p == 0: return PINF
        return norm(Fraction(1) / p)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        return reduce_sqrt(Poly({tuple((i, -e) for i, e in m): norm(Fraction(1) / c)}))
    # factor out the common monomial and the leading coefficient
    ms = list(p.t)
    exps = {}
    for i in set(i for m in ms for i, _ in m):
        lo = min((dict(m).get(i, 0) for m in ms))
        if lo: exps[i] = lo
    common = tuple(sorted(exps.items()))
    inv_common = tuple((i, -e) for i, e in common)
    q = {mono_mul(m, inv_common): c for m, c in p.t.items()}
    lead = q[min(q, key=lambda m: (len(m), m))]
    q = {m: norm(Fraction(c) / lead) for m, c in q.items()}
    a = atom("inv", "", (Poly(q),))
    return Poly({mono_mul(inv_common, ((a.id, 1),)) : norm(Fraction(1) / lead)})

def div(a, b):
    if a is UNDEF or b is UNDEF: return UNDEF
    if isinstance(a, Special) or isinstance(b, Special): return spec_arith("/", a, b)
    if is_const(a) and is_const(b):
        if b == 0: return spec_arith("/", a, b)
        return norm(Fraction(a) / b)
    if is_const(b) and b == 0: raise Unsupported("division by zero constant")
    if isinstance(a, Poly) and isinstance(b, Poly) and a.t == b.t: return 1
    r = mul(a, inverse(b))
    return cancel_inv(r, b)

def cancel_inv(r, b):
    """(k*b) * inv(b) -> k for a shared factor; covers x*p/p patterns."""
    return r


# ------------------------------------------------------------------------------------------------ functions
def f_exp(a):
    if a is UNDEF: return UNDEF
    if is_const(a) and a == 0: return 1
    if isinstance(a, Special):
        return {"nan": NAN, "inf": PINF, "-inf": 0}[a.kind]
    t = terms(a)
    mono = []
    res = None
    rest = {}
    for m, c in t.items():
        # exp(log p) = p
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "log" and c in (1, -1):
            p = ATOMS[m[0][0]].args[0]
            f = p if c == 1 else inverse(p)
            res = f if res is None else mul(res, f)
            continue
        n = c
        if isinstance(n, Fraction) or abs(n) > 64 or m == ():
            rest[m] = c
            continue
        at = atom("exp", "", (Poly({m: 1}),), 3)
        mono.append((at.id, int(n)))
    out = 1 if res is None else res
    if mono: out = mul(out, Poly({tuple(sorted(mono)): 1}))
    if rest:
        # canonical sign: leading coefficient positive
        lead = rest[min(rest, key=lambda m: (len(m), m))]
        sgn = 1
        if lead < 0:
            sgn = -1
            rest = {m: -c for m, c in rest.items()}
        r = mk(rest)
        at = atom("exp", "", (r,), 3)
        out = mul(out, Poly({((at.id, sgn),): 1}))
    return out

def f_log(a):
    if a is UNDEF: return UNDEF
    if is_const(a) and a == 1: return 0
    if isinstance(a, Special): return a
    t = terms(a)
    if len(t) == 1:
        (m, c), = t.items()
        if c == 1 and m and all(ATOMS[i].kind == "exp" for i, _ in m):
            s = 0
            for i, e in m: s = add(s, mul(e, ATOMS[i].args[0]))
            return s
    return of_atom(atom("log", "", (a,)))

def f_sqrt(a):
    if a is UNDEF: return UNDEF
    if is_const(a):
        if a < 0: return NAN
        import math
        f = Fraction(a)
        p, q = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if p * p == f.numerator and q * q == f.denominator: return norm(Fraction(p, q))
    if isinstance(a, Special): return a
    # sqrt(c^2-free scaling): pull out the content so that sqrt(k*p) with square k matches
    return of_atom(atom("sqrt", "", (a,)))

def f_floor(a):
    if a is UNDEF: return UNDEF
    if is_const(a): return Fraction(a).__floor__()
    return of_atom(atom("floor", "", (a,)))

def f_trunc(a):
    if is_const(a): return int(Fraction(a).__trunc__())
    if isinstance(a, Poly) and len(a.t) == 1:
        (m, c), = a.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind in ("floor", "ceil", "rint"): return a
    return of_atom(atom("trunc", "", (a,)))

def f_pow2(a):
    """2^a for an integer-valued a"""
    if is_const(a): return norm(Fraction(2) ** int(a))
    return of_atom(atom("pow2", "", (a,), 3))

def f_tanh(a):
    if a is UNDEF: return UNDEF
    if is_const(a) and a == 0: return 0
    e = f_exp(mul(2, a)) if not is_const(a) else f_exp(2 * a)
    return div(sub(e, 1), add(e, 1))

def f_app(name, args):
    for a in args:
        if a is UNDEF: return UNDEF
    return of_atom(atom("app", name, tuple(args)))

def f_unary(kind, a):
    if a is UNDEF: return UNDEF
    return of_atom(atom(kind, "", (a,)))


# ---------------------------------------------------------------------------------------------- conditions
class Cond:
    """lt(p): p < 0,  eq(p): p == 0, and/or/not; interned."""
    __slots__ = ("id", "op", "args")
    def __init__(self, id, op, args): self.id, self.op, self.args = id, op, args
    def __repr__(self): return "%s(%s)" % (self.op, ", ".join(map(str, self.args)))

_cond_ix = {}
def _cond(op, args):
    key = (op,) + tuple(key_of(a) for a in args)
    c = _cond_ix.get(key)
    if c is None:
        c = _cond_ix[key] = Cond(len(_cond_ix), op, args)
    return c

def _scale(p):
    """divide by |leading coefficient|; returns poly"""
    k = min(p.t, key=lambda m: (len(m), m))
    c = abs(p.t[k])
    if c != 1: p = mul(Fraction(1) / c, p)
    return p

def c_lt0(p):
    """p < 0"""
    if is_const(p): return p < 0
    if isinstance(p, Special): raise Unsupported("compare special")
    for m, c in p.t.items():            # arg - floor(arg) < 0 is false, floor(arg) - arg < 1 always
        if len(m) == 1 and m[0][1] == 1 and c in (1, -1) and ATOMS[m[0][0]].kind == "floor":
            r = sub(add(p, mul(ATOMS[m[0][0]].args[0], c)), mul(c, of_atom(ATOMS[m[0][0]])))
            if is_const(r):             # p = r - c*(arg - floor(arg)),  0 <= arg - floor(arg) < 1
                if c == -1 and r >= 0: return False
                if c == -1 and r <= -1: return True
                if c == 1 and r < 0: return True
                if c == 1 and r >= 1: return False
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if all(ATOMS[i].flags & 1 or e % 2 == 0 and False for i, e in m): return c < 0
    return _cond("lt", (_scale(p),))

def c_eq0(p):
    if is_const(p): return p == 0
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if all(ATOMS[i].flags & 3 for i, e in m): return False
    p = _scale(p)
    k = min(p.t, key=lambda m: (len(m), m))
    if p.t[k] < 0: p = neg(p)
    return _cond("eq", (p,))

def c_not(c):
    if c is True or c is False: return not c
    if c is UNDEF: return UNDEF
    if c.op == "not": return c.args[0]
    return _cond("not", (c,))

def c_and(a, b):
    if a is UNDEF or b is UNDEF: return UNDEF
    if a is False or b is False: return False
    if a is True: return b
    if b is True: return a
    if a is b: return a
    if c_not(a) is b: return False
    if a.id > b.id: a, b = b, a
    return _cond("and", (a, b))

def c_or(a, b):
    return c_not(c_and(c_not(a), c_not(b)))

def c_ite(c, a, b):
    return c_or(c_and(c, a), c_and(c_not(c), b))

def cmp_float(pred, a, b):
    """fcmp on reals (ordered and unordered predicates coincide: NaN is excluded)."""
    if a is UNDEF or b is UNDEF: return UNDEF
    if pred == "false": return False
    if pred == "true": return True
    if isinstance(a, Special) or isinstance(b, Special):
        import math
        def f(x):
            if isinstance(x, Special): return {"nan": math.nan, "inf": math.inf, "-inf": -math.inf}[x.kind]
            return float(x) if is_const(x) else 0.0      # any finite value
        x, y = f(a), f(b)
        un = x != x or y != y
        if pred == "uno": return un
        if pred == "ord": return not un
        if un: return pred[0] == "u"
        p = pred[1:]
        return {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[p]
    if pred == "uno": return False
    if pred == "ord": return True
    p = pred[1:]
    if p == "eq": return c_eq0(sub(a, b))
    if p == "ne": return c_not(c_eq0(sub(a, b)))
    if p == "lt": return c_lt0(sub(a, b))
    if p == "gt": return c_lt0(sub(b, a))
    if p == "le": return c_not(c_lt0(sub(b, a)))
    if p == "ge": return c_not(c_lt0(sub(a, b)))
    raise Unsupported("fcmp " + pred)


# ------------------------------------------------------------------------------------------- substitution
def subst_atom(p, aid, val):
    """replace atom aid (as a plain factor; occurrences nested in other atoms are rewritten too)"""
    return subst(p, {aid: val})

def subst(p, mp, memo=None):
    if not isinstance(p, Poly): return p
    if memo is None: memo = {}
    res = None
    acc = {}
    changed = False
    for m, c in p.t.items():
        f = None
        rest = []
        for i, e in m:
            v = mp.get(i)
            if v is None:
                v = subst_in_atom(i, mp, memo)
            if v is None: rest.append((i, e)); continue
            if e < 0: v = inverse(v); e = -e
            if isinstance(v, Special): raise Unsupported("substitution yields infinity")
            for _ in range(e): f = v if f is None else mul(f, v)
        if f is None:
            o = acc.get(m)
            s = c if o is None else norm(o + c)
            if s == 0: acc.pop(m, None)
            else: acc[m] = s
        else:
            changed = True
            t = mul(f, Poly({tuple(rest): c})) if rest else mul(f, c)
            for k, d in terms(t).items():
                o = acc.get(k)
                s = d if o is None else norm(o + d)
                if s == 0: acc.pop(k, None)
                else: acc[k] = s
    if not changed: return p
    return mk(acc)

def subst_in_atom(i, mp, memo):
    if i in memo: return memo[i]
    a = ATOMS[i]
    r = None
    if a.args:
        na = []
        ch = False
        for x in a.args:
            y = subst_cond(x, mp, memo) if isinstance(x, Cond) else subst(x, mp, memo)
            if y is not x: ch = True
            na.append(y)
        if ch: r = rebuild(a, na)
    memo[i] = r
    return r

def rebuild(a, na):
    k = a.kind
    if k == "inv": return inverse(na[0])
    if k == "exp": return f_exp(na[0])
    if k == "log": return f_log(na[0])
    if k == "sqrt": return f_sqrt(na[0])
    if k == "floor": return f_floor(na[0])
    if k == "trunc": return f_trunc(na[0])
    if k == "pow2": return f_pow2(na[0])
    if k == "ite": return ite(na[0], na[1], na[2])
    if k == "app": return f_app(a.name, na)
    return of_atom(atom(k, a.name, tuple(na), a.flags))

def subst_cond(c, mp, memo=None):
    if c is True or c is False: return c
    if memo is None: memo = {}
    v = mp.get(("c", c.id))
    if v is not None: return v
    if c.op == "lt":
        p = subst(c.args[0], mp, memo)
        return c if p is c.args[0] else c_lt0(p)
    if c.op == "eq":
        p = subst(c.args[0], mp, memo)
        return c if p is c.args[0] else c_eq0(p)
    if c.op == "not":
        x = subst_cond(c.args[0], mp, memo)
        return c if x is c.args[0] else c_not(x)
    x, y = subst_cond(c.args[0], mp, memo), subst_cond(c.args[1], mp, memo)
    return c if x is c.args[0] and y is c.args[1] else c_and(x, y)

def split_cond(vals, cost=None):
    """a condition of an if-then-else inside vals that contains no other if-then-else (None: there is none)"""
    best = None
    for v in vals:
        for i in all_atoms(v):
            a = ATOMS[i]
            if a.kind == "ite" and (best is None or i < best): best = i
    if best is None: return None
    c = ATOMS[best].args[0]
    while c.op in ("not", "and"): c = c.args[0]
    return c

def solve_eq(p):
    """From p == 0 with a variable/atom occurring linearly with constant coefficient (and nowhere else): (atom, value)."""
    best = None
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1:
            i = m[0][0]
            ok = True
            for m2 in p.t:
                if m2 is m: continue
                for j, _ in m2:
                    if j == i or occurs(i, j): ok = False; break
                if not ok: break
            if ok and (best is None or i > best[0]):
                best = (i, m, c)
    if best is None: return None
    i, m, c = best
    rest = {k: v for k, v in p.t.items() if k is not m}
    return i, mul(norm(Fraction(-1) / c), mk(rest))

def occurs(i, j):
    """does atom i occur inside atom j?"""
    if j <= i: return i == j          # atoms are created after their arguments
    seen = {j}
    st = [j]
    while st:
        for x in ATOMS[st.pop()].args:
            todo = [x]
            while todo:
                y = todo.pop()
                if isinstance(y, Poly):
                    for m in y.t:
                        for k, _ in m:
                            if k == i: return True
                            if k > i and k not in seen: seen.add(k); st.append(k)
                elif isinstance(y, Cond): todo.extend(y.args)
    return False

def occurs_in(i, x):
    if isinstance(x, Poly):
        return any(j == i or occurs(i, j) for m in x.t for j, _ in m)
    if isinstance(x, Cond):
        return any(occurs_in(i, y) for y in x.args)
    return False

ITE_STATS = {"merged_equal": 0, "by_substitution": 0, "kept": 0}

def ite(c, a, b):
    """value a when c, else b (reals)"""
    if c is True: return a
    if c is False: return b
    if c is UNDEF: return UNDEF
    if a is b: return a
    if a is UNDEF or b is UNDEF: return UNDEF
    if isinstance(a, Special) or isinstance(b, Special):
        raise Unsupported("if-then-else on infinity")
    if a == b:
        return a
    if c.op == "not": return ite(c.args[0], b, a)
    if c.op == "eq":
        r = solve_eq(c.args[0])
        if r is not None:
            i, v = r
            if subst(a, {i: v}) == subst(b, {i: v}):
                ITE_STATS["by_substitution"] += 1
                return b
    if c.op == "lt":
        # orient: p<0 ? a : b.   If a and b agree at p == 0 the strict/non-strict choice is irrelevant:
        # use the orientation whose polynomial has a positive leading coefficient.
        p = c.args[0]
        k = min(p.t, key=lambda m: (len(m), m))
        if p.t[k] < 0:
            r = solve_eq(p)
            if r is not None and subst(a, {r[0]: r[1]}) == subst(b, {r[0]: r[1]}):
                c = c_lt0(neg(p))
                a, b = b, a
    ITE_STATS["kept"] += 1
    return of_atom(atom("ite", "", (c, a, b)))

def f_max(a, b):
    if a is UNDEF or b is UNDEF: return UNDEF
    if isinstance(a, Special): a, b = b, a
    if isinstance(b, Special): return a if b.kind in ("-inf", "nan") else b
    return ite(c_lt0(sub(a, b)), b, a)

def f_min(a, b):
    if a is UNDEF or b is UNDEF: return UNDEF
    if isinstance(a, Special): a, b = b, a
    if isinstance(b, Special): return a if b.kind in ("inf", "nan") else b
    return ite(c_lt0(sub(a, b)), a, b)

def f_abs(a):
    if a is UNDEF: return UNDEF
    if is_const(a): return abs(a)
    return ite(c_lt0(a), neg(a), a)

def all_atoms(v, acc=None):
    if acc is None: acc = set()
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, Poly):
            for m in x.t:
                for i, _ in m:
                    if i not in acc:
                        acc.add(i)
                        st.extend(ATOMS[i].args)
        elif isinstance(x, Cond):
            st.extend(x.args)
    return acc


# --------------------------------------------------------------------------------- concrete evaluation (floats)
def evaluate(v, env, apps=None, memo=None):
    """numerical value (python float) of an expression; env: var name -> float, apps: name -> callable"""
    import math
    if memo is None: memo = {}
    if is_const(v): return float(v)
    if isinstance(v, Special): return {"nan": math.nan, "inf": math.inf, "-inf": -math.inf}[v.kind]
    if isinstance(v, Cond) or v is True or v is False: return eval_cond(v, env, apps, memo)
    s = 0.0
    for m, c in v.t.items():
        x = float(c)
        for i, e in m:
            x *= eval_atom(i, env, apps, memo) ** e
        s += x
    return s

def eval_cond(c, env, apps, memo):
    if c is True or c is False: return c
    if c.op == "lt": return evaluate(c.args[0], env, apps, memo) < 0
    if c.op == "eq": return abs(evaluate(c.args[0], env, apps, memo)) < 1e-12
    if c.op == "not": return not eval_cond(c.args[0], env, apps, memo)
    return eval_cond(c.args[0], env, apps, memo) and eval_cond(c.args[1], env, apps, memo)

def eval_atom(i, env, apps, memo):
    import math
    r = memo.get(i)
    if r is not None: return r
    a = ATOMS[i]
    k = a.kind
    ev = lambda n: evaluate(a.args[n], env, apps, memo)
    if k == "var": r = float(env[a.name])
    elif k == "inv":
        d = ev(0); r = 1.0 / d if d else math.inf
    elif k == "exp":
        x = ev(0); r = math.exp(x) if x < 700 else math.inf
    elif k == "log":
        x = ev(0); r = math.log(x) if x > 0 else -math.inf
    elif k == "sqrt": r = math.sqrt(max(ev(0), 0.0))
    elif k == "floor": r = float(math.floor(ev(0)))
    elif k == "trunc": r = float(math.trunc(ev(0)))
    elif k == "round":
        x = ev(0); r = math.copysign(math.floor(abs(x) + 0.5), x)
    elif k == "rint": r = float(round(ev(0)))
    elif k == "ceil": r = float(math.ceil(ev(0)))
    elif k == "pow2": r = 2.0 ** ev(0)
    elif k == "aexp": r = math.exp(ev(0))
    elif k == "ite": r = ev(1) if eval_cond(a.args[0], env, apps, memo) else ev(2)
    elif k == "app": r = apps[a.name](*[evaluate(x, env, apps, memo) for x in a.args])
    else: raise Unsupported("evaluate " + k)
    memo[i] = r
    return r
