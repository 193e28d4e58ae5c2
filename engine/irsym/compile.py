"""Compiles a parsed IR function into Python closures over a register file."""
import re
from fractions import Fraction
from . import sem
from .sem import UNDEF, Poly, Cond, Special, Unsupported, is_const
from .irparse import P, tokenize
from .machine import (Block, CFn, Ptr, VIte, Bits, IntOf, FInt, Raw, Violation, Obj, Frame, as_float, int_bits_to_float, bits_of,
                      vite, merge_vals, to_cond, map_int, sx, int_bin)

FLAGS = set("nnan ninf nsz arcp contract afn reassoc fast nsw nuw exact disjoint nneg samesign inbounds volatile tail musttail notail".split())
FLOATOPS = {'fadd': sem.add, 'fsub': sem.sub, 'fmul': sem.mul, 'fdiv': sem.div}
INTOPS = set("add sub mul and or xor shl lshr ashr udiv urem sdiv srem".split())


def addr(v):
    if v.__class__ is Ptr: return v.obj.base + v.off
    return v


def ival(a, b, op, n):
    """integer binary operation including the special value classes"""
    ca, cb = a.__class__, b.__class__
    if ca is int and cb is int: return int_bin(op, a, b, n)
    if a is UNDEF or b is UNDEF: return UNDEF
    if ca is bool or cb is bool or isinstance(a, Cond) or isinstance(b, Cond):
        if n == 1: return bool_bin(op, a, b)
        a = to_int(a); b = to_int(b)
        return ival(a, b, op, n)
    if ca is VIte: return vite(a.c, ival(a.a, b, op, n), ival(a.b, b, op, n))
    if cb is VIte: return vite(b.c, ival(a, b.a, op, n), ival(a, b.b, op, n))
    if ca is Ptr: return ival(addr(a), b, op, n)
    if cb is Ptr: return ival(a, addr(b), op, n)
    M = (1 << n) - 1
    if ca is Bits or cb is Bits:
        if ca is not Bits: a, b, ca, cb = b, a, cb, ca
        if cb is int:
            S = 1 << (n - 1)
            if op == 'and':
                if b == M: return a
                if b == 0: return 0
                if b == M ^ S: return Bits(sem.f_abs(a.v), a.n)
                if b == S: return vite(sem.c_lt0(a.v) if not is_const(a.v) else a.v < 0, S, 0)
            if op == 'or':
                if b == 0: return a
                if b == M: return M
                if b == S: return Bits(sem.neg(sem.f_abs(a.v)), a.n)
            if op == 'xor':
                if b == 0: return a
                if b == S: return Bits(sem.neg(a.v), a.n)
            if op in ('shl', 'lshr', 'ashr', 'add', 'sub') and b == 0 and ca is Bits: return a
        if is_const(a.v): return ival(bits_of(a.v, a.n), b, op, n)
        if cb is Bits and is_const(b.v): return ival(a, bits_of(b.v, b.n), op, n)
    if ca is IntOf and cb is int:
        s = sx(b, n)
        if op == 'add' and a.sh == 0: return IntOf(sem.add(a.p, s))
        if op == 'sub' and a.sh == 0: return IntOf(sem.sub(a.p, s))
        if op == 'mul' and a.sh == 0: return IntOf(sem.mul(a.p, s))
        if op == 'shl': return IntOf(a.p, a.sh + b)
        if op == 'add' and a.sh and s % (1 << a.sh) == 0: return IntOf(sem.add(a.p, s >> a.sh), a.sh)
        if op in ('or', 'xor') and b == 0: return a
    if cb is IntOf and ca is int:
        if op in ('add', 'mul', 'or', 'xor'): return ival(b, a, op, n)
        if op == 'sub' and b.sh == 0: return IntOf(sem.sub(sx(a, n), b.p))
    if ca is IntOf and cb is IntOf and a.sh == b.sh and op in ('add', 'sub'):
        return IntOf((sem.add if op == 'add' else sem.sub)(a.p, b.p), a.sh)
    raise Unsupported("integer %s on %r, %r" % (op, a, b))


def to_int(v):
    if v.__class__ is bool: return int(v)
    if isinstance(v, Cond): return VIte(v, 1, 0)
    return v


def bool_bin(op, a, b):
    a, b = to_cond(a), to_cond(b)
    if a is UNDEF or b is UNDEF: return UNDEF
    if op == 'and' or op == 'mul': return sem.c_and(a, b)
    if op == 'or': return sem.c_or(a, b)
    if op in ('xor', 'add', 'sub'): return sem.c_ite(a, sem.c_not(b), b)
    raise Unsupported("i1 " + op)


def icmp(pred, a, b, n):
    ca, cb = a.__class__, b.__class__
    if ca is int and cb is int:
        if pred == 'eq': return a == b
        if pred == 'ne': return a != b
        if pred[0] == 's':
            a = sx(a, n); b = sx(b, n)
        p = pred[1:]
        return a < b if p == 'lt' else a <= b if p == 'le' else a > b if p == 'gt' else a >= b
    if a is UNDEF or b is UNDEF: return UNDEF
    if ca is bool or cb is bool or isinstance(a, Cond) or isinstance(b, Cond):
        a, b = to_cond(a), to_cond(b)
        x = sem.c_ite(a, sem.c_not(b), b)
        if pred == 'ne': return x
        if pred == 'eq': return sem.c_not(x)
        if pred == 'ult': return sem.c_and(sem.c_not(a), b)
        if pred == 'ugt': return sem.c_and(a, sem.c_not(b))
        raise Unsupported("i1 compare")
    if ca is VIte: return sem.c_ite(a.c, icmp(pred, a.a, b, n), icmp(pred, a.b, b, n))
    if cb is VIte: return sem.c_ite(b.c, icmp(pred, a, b.a, n), icmp(pred, a, b.b, n))
    if ca is Ptr or cb is Ptr: return icmp(pred, addr(a), addr(b), 64)
    if (ca is IntOf or cb is IntOf):
        x = a.p if ca is IntOf else sx(a, n) if ca is int else None
        y = b.p if cb is IntOf else sx(b, n) if cb is int else None
        if x is not None and y is not None and (ca is not IntOf or a.sh == 0) and (cb is not IntOf or b.sh == 0):
            p = {'eq': 'oeq', 'ne': 'one', 'slt': 'olt', 'sle': 'ole', 'sgt': 'ogt', 'sge': 'oge'}.get(pred)
            if p: return sem.cmp_float(p, x, y)
    if ca is Bits or cb is Bits:
        if ca is Bits and is_const(a.v): return icmp(pred, bits_of(a.v, a.n), b, n)
        if cb is Bits and is_const(b.v): return icmp(pred, a, bits_of(b.v, b.n), n)
        if ca is Bits and cb is int and pred in ('slt', 'sgt'):
            if b == 0 and pred == 'slt': return sem.cmp_float('olt', a.v, 0)
            if b == (1 << n) - 1 and pred == 'sgt': return sem.cmp_float('oge', a.v, 0)
        if pred in ('eq', 'ne'):
            # equality of float bit patterns (NaN excluded; +-0 distinction ignored)
            x = a.v if ca is Bits else int_bits_to_float(a, n // 8)
            y = b.v if cb is Bits else int_bits_to_float(b, n // 8)
            return sem.cmp_float('o' + pred, x, y)
    raise Unsupported("icmp %s %r, %r" % (pred, a, b))


def trunc_int(v, n):
    if v.__class__ is int:
        if n == 1: return bool(v & 1)
        return v & ((1 << n) - 1)
    if v is UNDEF: return v
    if v.__class__ is VIte:
        r = vite(v.c, trunc_int(v.a, n), trunc_int(v.b, n))
        return to_cond(r) if n == 1 else r
    if v.__class__ is Ptr: return trunc_int(addr(v), n)
    if v.__class__ is IntOf: return v
    if v.__class__ is Bits and is_const(v.v): return trunc_int(bits_of(v.v, v.n), n)
    raise Unsupported("trunc of %r" % (v,))


def ext_int(v, frm, to, signed):
    c = v.__class__
    if frm == 1:
        one = ((1 << to) - 1) if signed else 1
        if c is bool: return one if v else 0
        if c is int: return one if v & 1 else 0
        if v is UNDEF: return v
        return vite(to_cond(v), one, 0)
    if c is int:
        if signed and v >> (frm - 1) & 1: return v | (((1 << to) - 1) ^ ((1 << frm) - 1))
        return v
    if v is UNDEF or c is IntOf or c is Ptr: return v
    if c is VIte: return vite(v.c, ext_int(v.a, frm, to, signed), ext_int(v.b, frm, to, signed))
    if c is Bits and is_const(v.v): return ext_int(bits_of(v.v, v.n), frm, to, signed)
    raise Unsupported("extension of %r" % (v,))


def itofp(v, n, signed):
    c = v.__class__
    if c is int: return sx(v, n) if signed else v
    if c is bool: return (-1 if signed else 1) if v else 0
    if v is UNDEF: return v
    if isinstance(v, Cond): return sem.ite(v, -1 if signed else 1, 0)
    if c is VIte: return sem.ite(v.c, itofp(v.a, n, signed), itofp(v.b, n, signed))
    if c is IntOf and v.sh == 0: return v.p
    raise Unsupported("int to float of %r" % (v,))


def fptoi(v, n, signed, mach=None):
    v = as_float(v)
    if v is UNDEF: return v
    if isinstance(v, Special): raise Violation("undefined-conversion", "conversion of %r to an integer" % v)
    if is_const(v):
        x = int(Fraction(v).__trunc__())
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)
        if not lo <= x <= hi: raise Violation("undefined-conversion", "conversion of %s to an %d-bit integer" % (float(v), n))
        return x & ((1 << n) - 1)
    return IntOf(sem.f_trunc(v))


def bitcast_elem(v, fk, tk, n):
    """element of kind fk ('f','d','i','p') to kind tk of the same size n bytes"""
    if fk == tk or v is UNDEF: return v
    if tk == 'i':
        if fk in 'fd':
            if v.__class__ is FInt: return v.v
            if is_const(v) or isinstance(v, Special): return bits_of(v, n)
            return Bits(v, n)
        return addr(v)
    if tk in 'fd':
        if fk == 'i':
            if v.__class__ is int: return int_bits_to_float(v, n)
            if v.__class__ is Bits: return v.v
            return int_bits_to_float(v, n)
    raise Unsupported("bitcast %s->%s" % (fk, tk))


def flat_bits(v):
    if v.__class__ is bool: return v
    return to_cond(v)


class Compiler:
    def __init__(self, mach, fn):
        self.m, self.fn, self.mod = mach, fn, mach.mod
        self.slots = {}
        self.template = []
        self.consts = {}

    def slot(self, reg):
        s = self.slots.get(reg)
        if s is None:
            s = self.slots[reg] = len(self.template)
            self.template.append(None)
        return s

    def const(self, val):
        s = len(self.template)
        self.template.append(val)
        return s

    def opnd(self, v, ty):
        if v[0] == 'reg': return self.slot(v[1])
        key = repr((v, ty))
        s = self.consts.get(key)
        if s is None:
            s = self.consts[key] = self.const(self.m.const_value(v, ty))
        return s

    def val(self, p, ty=None):
        if ty is None: ty = p.type()
        p.skip_attrs()
        return self.opnd(p.value(ty), ty), self.mod.resolve(ty)

    def compile(self):
        fn = self.fn
        cf = CFn()
        cf.name = fn.name
        cf.vararg = fn.vararg
        rt = self.mod.resolve(fn.ret)
        cf.floatret = rt[0] in 'fd' if rt[0] != 'v' else rt[2][0] in 'fd'
        cf.params = [self.slot(n) for _, n in fn.params]
        blocks = {}
        for i, name in enumerate(fn.order):
            b = Block(); b.name = name; b.phis = []; b.code = []; b.term = None; b.idx = i; b.ipdom = None
            blocks[name] = b
        self.bl = blocks
        for name in fn.order:
            b = blocks[name]
            for line in fn.blocks[name]:
                self.line(b, line)
            if b.term is None: raise Unsupported("block without terminator in " + fn.name)
        cf.blocks = blocks
        cf.entry = blocks[fn.order[0]]
        self.postdom([blocks[n] for n in fn.order])
        cf.template = self.template
        cf.n = sum(len(b.code) for b in blocks.values())
        return cf

    def succ(self, b):
        t = b.term
        if t[0] == 'br': return [t[1]]
        if t[0] == 'cbr': return [t[2], t[3]]
        if t[0] == 'switch': return [t[2]] + list(t[3].values())
        return []

    def postdom(self, blocks):
        # blocks that can reach a return
        live = set(b for b in blocks if b.term[0] == 'ret')
        ch = True
        while ch:
            ch = False
            for b in blocks:
                if b not in live and any(s in live for s in self.succ(b)):
                    live.add(b); ch = True
        EXIT = object()
        allb = [b for b in blocks if b in live]
        pd = {b: None for b in allb}      # None = all
        pd[EXIT] = {EXIT}
        ch = True
        while ch:
            ch = False
            for b in reversed(allb):
                ss = [EXIT] if b.term[0] == 'ret' else [s for s in self.succ(b) if s in live]
                cur = None
                for s in ss:
                    x = pd[s]
                    if x is None: continue
                    cur = set(x) if cur is None else cur & x
                if cur is None: continue
                cur.add(b)
                if cur != pd[b]: pd[b] = cur; ch = True
        for b in allb:
            if pd[b] is None: continue
            cand = pd[b] - {b}
            # immediate: the one post-dominated by all the others
            for c in cand:
                if c is EXIT: continue
                if pd[c] is not None and len(pd[c]) == len(cand):
                    b.ipdom = c
                    break

    # ------------------------------------------------------------------
    def line(self, b, line):
        p = P(tokenize(line), self.mod)
        dst = None
        if p.kind() == 'loc' and p.peek(1) == '=':
            dst = p.next(); p.next()
        op = p.next()
        while op in ('tail', 'musttail', 'notail'): op = p.next()
        f = getattr(self, 'i_' + op, None)
        if f is None:
            if op in FLOATOPS: return self.fbin(b, dst, op, p)
            if op in INTOPS: return self.ibin(b, dst, op, p)
            raise Unsupported("instruction %s" % op)
        f(b, dst, p)

    def flags(self, p):
        while p.peek() in FLAGS: p.next()

    # ---- terminators
    def label(self, p):
        p.expect('label')
        return self.bl[p.next()]
    def i_br(self, b, dst, p):
        if p.peek() == 'label': b.term = ('br', self.label(p)); return
        c, _ = self.val(p)
        p.expect(','); t = self.label(p); p.expect(','); f = self.label(p)
        b.term = ('cbr', c, t, f)
    def i_ret(self, b, dst, p):
        ty = p.type()
        if ty == ('void',): b.term = ('ret', None); return
        s, _ = self.val(p, ty)
        b.term = ('ret', s)
    def i_switch(self, b, dst, p):
        v, ty = self.val(p); p.expect(',')
        d = self.label(p)
        p.expect('[')
        tab = {}
        while not p.accept(']'):
            cty = p.type(); cv = p.value(cty); p.expect(',')
            k = self.m.const_value(cv, cty)
            tab[k] = self.label(p)
        b.term = ('switch', v, d, tab)
    def i_unreachable(self, b, dst, p):
        b.term = ('unreachable',)

    # ---- phi
    def i_phi(self, b, dst, p):
        self.flags(p)
        ty = p.type()
        rty = self.mod.resolve(ty)
        isf = rty[0] in 'fd' or (rty[0] == 'v' and rty[2][0] in 'fd')
        src = {}
        while True:
            p.expect('[')
            v = self.opnd(p.value(ty), ty); p.expect(','); lab = p.next(); p.expect(']')
            src[self.bl[lab]] = v
            if not p.accept(','): break
        b.phis.append((self.slot(dst), src, isf))

    # ---- arithmetic
    def two(self, p):
        self.flags(p)
        ty = p.type()
        a = self.opnd(p.value(ty), ty); p.expect(','); c = self.opnd(p.value(ty), ty)
        return a, c, self.mod.resolve(ty)
    def fbin(self, b, dst, op, p):
        x, y, ty = self.two(p)
        d = self.slot(dst)
        f = FLOATOPS[op]
        if ty[0] == 'v':
            def ins(R, fr): R[d] = [f(as_float(u), as_float(v)) for u, v in zip(R[x], R[y])]
        else:
            def ins(R, fr): R[d] = f(as_float(R[x]), as_float(R[y]))
        b.code.append(ins)
    def i_frem(self, b, dst, p): raise Unsupported("frem")
    def ibin(self, b, dst, op, p):
        x, y, ty = self.two(p)
        d = self.slot(dst)
        if ty[0] == 'v':
            n = self.mod.resolve(ty[2])[1]
            def ins(R, fr): R[d] = [ival(u, v, op, n) for u, v in zip(R[x], R[y])]
        else:
            n = ty[1]
            M = (1 << n) - 1
            if n == 1:
                def ins(R, fr): R[d] = ival(R[x], R[y], op, 1)
            elif op == 'add':
                def ins(R, fr):
                    u = R[x]; v = R[y]
                    R[d] = (u + v) & M if u.__class__ is int and v.__class__ is int else ival(u, v, 'add', n)
            else:
                def ins(R, fr): R[d] = ival(R[x], R[y], op, n)
        b.code.append(ins)
    def i_fneg(self, b, dst, p):
        self.flags(p)
        x, ty = self.val(p); d = self.slot(dst)
        if ty[0] == 'v':
            def ins(R, fr): R[d] = [sem.neg(as_float(u)) for u in R[x]]
        else:
            def ins(R, fr): R[d] = sem.neg(as_float(R[x]))
        b.code.append(ins)
    def i_fcmp(self, b, dst, p):
        self.flags(p)
        pred = p.next()
        x, y, ty = self.two(p); d = self.slot(dst)
        cmpf = sem.cmp_float
        if ty[0] == 'v':
            def ins(R, fr): R[d] = [cmpf(pred, as_float(u), as_float(v)) for u, v in zip(R[x], R[y])]
        else:
            def ins(R, fr): R[d] = cmpf(pred, as_float(R[x]), as_float(R[y]))
        b.code.append(ins)
    def i_icmp(self, b, dst, p):
        self.flags(p)
        pred = p.next()
        x, y, ty = self.two(p); d = self.slot(dst)
        if ty[0] == 'v':
            e = self.mod.resolve(ty[2]); n = e[1] if e[0] == 'i' else 64
            def ins(R, fr): R[d] = [icmp(pred, u, v, n) for u, v in zip(R[x], R[y])]
        else:
            n = ty[1] if ty[0] == 'i' else 64
            def ins(R, fr): R[d] = icmp(pred, R[x], R[y], n)
        b.code.append(ins)
    def i_select(self, b, dst, p):
        self.flags(p)
        c, cty = self.val(p); p.expect(',')
        x, ty = self.val(p); p.expect(',')
        y, _ = self.val(p)
        d = self.slot(dst)
        isf = ty[0] in 'fd' or (ty[0] == 'v' and ty[2][0] in 'fd')
        if cty[0] == 'v':
            def ins(R, fr):
                out = []
                for k, u, v in zip(R[c], R[x], R[y]):
                    if k is True: out.append(u)
                    elif k is False: out.append(v)
                    else: out.append(merge_vals(to_cond(k), u, v, isf) if k is not UNDEF else UNDEF)
                R[d] = out
        else:
            m = self.m
            def ins(R, fr):
                k = R[c]
                if k is True: R[d] = R[x]
                elif k is False: R[d] = R[y]
                elif k is UNDEF: R[d] = UNDEF if ty[0] != 'v' else [UNDEF] * ty[1]
                else:
                    k = to_cond(k)
                    if k is not True and k is not False:
                        kn = m.known(k)
                        if kn is not None: k = kn
                    R[d] = R[x] if k is True else R[y] if k is False else merge_vals(k, R[x], R[y], isf)
        b.code.append(ins)
    def i_freeze(self, b, dst, p):
        x, ty = self.val(p); d = self.slot(dst)
        def ins(R, fr): R[d] = R[x]
        b.code.append(ins)

    # ---- casts
    def cast(self, b, dst, p, f, lanes=True):
        self.flags(p)
        x, ty = self.val(p); p.expect('to'); to = self.mod.resolve(p.type())
        d = self.slot(dst)
        g = f(ty[2] if ty[0] == 'v' else ty, to[2] if to[0] == 'v' else to)
        if ty[0] == 'v':
            def ins(R, fr): R[d] = [g(u) for u in R[x]]
        else:
            def ins(R, fr): R[d] = g(R[x])
        b.code.append(ins)
    def i_sext(self, b, dst, p): self.cast(b, dst, p, lambda a, c: (lambda v: ext_int(v, a[1], c[1], True)))
    def i_zext(self, b, dst, p): self.cast(b, dst, p, lambda a, c: (lambda v: ext_int(v, a[1], c[1], False)))
    def i_trunc(self, b, dst, p): self.cast(b, dst, p, lambda a, c: (lambda v: trunc_int(v, c[1])))
    def i_sitofp(self, b, dst, p): self.cast(b, dst, p, lambda a, c: (lambda v: itofp(v, a[1], True)))
    def i_uitofp(self, b, dst, p): self.cast(b, dst, p, lambda a, c: (lambda v: itofp(v, a[1], False)))
    def i_fptosi(self, b, dst, p): self.cast(b, dst, p, lambda a, c: (lambda v: fptoi(v, c[1], True)))
    def i_fptoui(self, b, dst, p): self.cast(b, dst, p, lambda a, c: (lambda v: fptoi(v, c[1], False)))
    def i_fpext(self, b, dst, p): self.cast(b, dst, p, lambda a, c: as_float)
    def i_fptrunc(self, b, dst, p): self.cast(b, dst, p, lambda a, c: as_float)
    def i_ptrtoint(self, b, dst, p): 
        def f(v):
            if v.__class__ is Ptr: return v.obj.base + v.off
            if v.__class__ is VIte: return vite(v.c, f(v.a), f(v.b))
            return v
        self.cast(b, dst, p, lambda a, c: f)
    def i_inttoptr(self, b, dst, p):
        m = self.m
        def f(v):
            if v.__class__ is int: return m.ptr_at(v)
            if v.__class__ is VIte: return vite(v.c, f(v.a), f(v.b))
            return v
        self.cast(b, dst, p, lambda a, c: f)
    def i_addrspacecast(self, b, dst, p): self.cast(b, dst, p, lambda a, c: (lambda v: v))
    def i_bitcast(self, b, dst, p):
        x, ty = self.val(p); p.expect('to'); to = self.mod.resolve(p.type())
        d = self.slot(dst)
        f = bitcast_fn(self.mod, ty, to)
        def ins(R, fr): R[d] = f(R[x])
        b.code.append(ins)

    # ---- vectors
    def i_extractelement(self, b, dst, p):
        x, ty = self.val(p); p.expect(','); i, _ = self.val(p); d = self.slot(dst)
        def ins(R, fr):
            k = R[i]
            if k.__class__ is not int: raise Unsupported("symbolic lane index")
            R[d] = R[x][k]
        b.code.append(ins)
    def i_insertelement(self, b, dst, p):
        x, ty = self.val(p); p.expect(','); v, _ = self.val(p); p.expect(','); i, _ = self.val(p); d = self.slot(dst)
        def ins(R, fr):
            l = list(R[x]); l[R[i]] = R[v]; R[d] = l
        b.code.append(ins)
    def i_shufflevector(self, b, dst, p):
        x, ty = self.val(p); p.expect(','); y, _ = self.val(p); p.expect(',')
        mty = p.type(); mv = self.m.const_value(p.value(mty), mty)
        d = self.slot(dst); n = ty[1]
        def ins(R, fr):
            u, v = R[x], R[y]
            R[d] = [UNDEF if k is UNDEF else (u[k] if k < n else v[k - n]) for k in mv]
        b.code.append(ins)
    def i_extractvalue(self, b, dst, p):
        x, ty = self.val(p)
        idx = []
        while p.accept(','): idx.append(int(p.next()))
        d = self.slot(dst)
        def ins(R, fr):
            v = R[x]
            for k in idx: v = v[k]
            R[d] = v
        b.code.append(ins)
    def i_insertvalue(self, b, dst, p):
        x, ty = self.val(p); p.expect(','); v, _ = self.val(p)
        idx = []
        while p.accept(','): idx.append(int(p.next()))
        d = self.slot(dst)
        def put(agg, idx, v):
            l = list(agg)
            l[idx[0]] = v if len(idx) == 1 else put(l[idx[0]], idx[1:], v)
            return l
        def ins(R, fr): R[d] = put(R[x], idx, R[v])
        b.code.append(ins)

    # ---- memory
    def i_alloca(self, b, dst, p):
        ty = p.type()
        cnt = None
        al = 0
        while p.accept(','):
            if p.peek() == 'align': p.next(); al = int(p.next())
            elif p.peek() == 'addrspace': raise Unsupported("addrspace")
            else: cnt, cty = self.val(p)
        d = self.slot(dst)
        es = self.mod.size(ty)
        m = self.m
        nm = "%s in %s" % (dst, self.fn.name)
        al = al or self.mod.align(ty)
        def ins(R, fr):
            n = 1
            if cnt is not None:
                n = R[cnt]
                if n.__class__ is not int: raise Unsupported("alloca of symbolic size")
                if n >= 1 << 40: raise Violation("bad-vla", "variable-length array of %d elements in %s" % (n, fr.cf.name))
            o = m.new_obj(nm, n * es, al, "stack")
            fr.allocas.append(o)
            R[d] = Ptr(o, 0)
        b.code.append(ins)
    def i_load(self, b, dst, p):
        atomic = p.accept('atomic')
        self.flags(p)
        ty = self.mod.resolve(p.type()); p.expect(',')
        x, _ = self.val(p)
        al = 1
        while p.peek() is not None and p.peek() != ',': p.next()
        while p.accept(','):
            if p.peek() == 'align': p.next(); al = int(p.next())
            else: break
        d = self.slot(dst)
        m = self.m
        if atomic:
            def ins(R, fr):
                with m.locked(): R[d] = m.load(R[x], ty, al)
            b.code.append(ins); return
        if ty[0] in ('f', 'i', 'p', 'd') and ty != ('i', 1) and not (ty[0] == 'i' and ty[1] % 8):
            size = self.mod.size(ty); k = ty[0]
            bits = ty[1] if k == 'i' else 0
            if bits and bits != 8 * size:
                def ins(R, fr): R[d] = m.load(R[x], ty, al)
            else:
                def ins(R, fr):
                    q = R[x]
                    if q.__class__ is Ptr:
                        o = q.obj; off = q.off
                        if off.__class__ is int and 0 <= off and off + size <= o.size and not o.freed and m.race is None and not (al > 1 and (o.base + off) % al):
                            c = o.cells.get(off)
                            if c is not None and c[1] == size and c[2] == k:
                                R[d] = c[0]; return
                    R[d] = m.load(q, ty, al)
        else:
            def ins(R, fr): R[d] = m.load(R[x], ty, al)
        b.code.append(ins)
    def i_store(self, b, dst, p):
        atomic = p.accept('atomic')
        self.flags(p)
        v, ty = self.val(p); p.expect(',')
        x, _ = self.val(p)
        al = 1
        while p.peek() is not None and p.peek() != ',': p.next()
        while p.accept(','):
            if p.peek() == 'align': p.next(); al = int(p.next())
            else: break
        m = self.m
        def ins(R, fr): m.store(R[x], ty, R[v], al)
        if atomic:
            def ins(R, fr):
                with m.locked(): m.store(R[x], ty, R[v], al)
        b.code.append(ins)
    def i_getelementptr(self, b, dst, p):
        self.flags(p)
        bty = p.type(); p.expect(',')
        base, bt = self.val(p)
        off = 0
        dyn = []
        ty = bty
        first = True
        while p.accept(','):
            ity = p.type()
            v = p.value(ity)
            if first: scale = self.mod.size(bty)
            else:
                ty = self.mod.resolve(ty)
                if ty[0] == 's':
                    k = self.m.const_value(v, ity)
                    off += self.mod.field_off(ty, k); ty = ty[1][k]
                    continue
                scale = self.mod.size(ty[2]); ty = ty[2]
            first = False
            if v[0] == 'const': off += sx(v[1], ity[1]) * scale
            else: dyn.append((self.opnd(v, ity), ity[1], scale))
        d = self.slot(dst)
        if bt[0] == 'v': raise Unsupported("vector of pointers")
        m = self.m
        def add_off(q, o):
            if q.__class__ is Ptr: return Ptr(q.obj, q.off + o)
            if q is UNDEF: return UNDEF
            if q.__class__ is VIte: return vite(q.c, add_off(q.a, o), add_off(q.b, o))
            if q.__class__ is int: return (q + o) & (2**64 - 1)
            raise Unsupported("pointer arithmetic on %r" % (q,))
        def sym(q, o, vals):
            # vals: list of (value, bits, scale)
            for k, (v, bits, sc) in enumerate(vals):
                if v.__class__ is VIte:
                    l = list(vals); r = list(vals)
                    l[k] = (v.a, bits, sc); r[k] = (v.b, bits, sc)
                    return vite(v.c, sym(q, o, l), sym(q, o, r))
                if v is UNDEF: return UNDEF
                if isinstance(v, Cond): 
                    l = list(vals); r = list(vals)
                    l[k] = (1, bits, sc); r[k] = (0, bits, sc)
                    return vite(v, sym(q, o, l), sym(q, o, r))
                if v.__class__ is not int: raise Unsupported("symbolic index %r" % (v,))
                o += sx(v, bits) * sc
            return add_off(q, o)
        if not dyn:
            def ins(R, fr):
                q = R[base]
                R[d] = Ptr(q.obj, q.off + off) if q.__class__ is Ptr else add_off(q, off)
        elif len(dyn) == 1:
            s0, b0, sc0 = dyn[0]
            H, F = 1 << (b0 - 1), 1 << b0
            def ins(R, fr):
                q = R[base]; i = R[s0]
                if q.__class__ is Ptr and i.__class__ is int:
                    if i >= H: i -= F
                    R[d] = Ptr(q.obj, q.off + off + i * sc0)
                else: R[d] = sym(q, off, [(i, b0, sc0)])
        else:
            def ins(R, fr): R[d] = sym(R[base], off, [(R[s], n, sc) for s, n, sc in dyn])
        b.code.append(ins)
    def i_atomicrmw(self, b, dst, p):
        self.flags(p)
        op = p.next()
        x, _ = self.val(p); p.expect(','); v, ty = self.val(p)
        d = self.slot(dst); m = self.m
        def ins(R, fr):
            with m.locked():
                old = m.load(R[x], ty)
                val = R[v]
                if op == 'fadd': new = sem.add(as_float(old), as_float(val))
                elif op == 'fsub': new = sem.sub(as_float(old), as_float(val))
                elif op == 'fmax': new = sem.f_max(old, val)
                elif op == 'fmin': new = sem.f_min(old, val)
                elif op == 'xchg': new = val
                elif op in ('add', 'sub', 'and', 'or', 'xor'): new = ival(old, val, op, ty[1])
                else: raise Unsupported("atomicrmw " + op)
                m.store(R[x], ty, new)
            R[d] = old
        b.code.append(ins)
    def i_cmpxchg(self, b, dst, p):
        while p.peek() in ('weak', 'volatile'): p.next()
        x, _ = self.val(p); p.expect(','); c, ty = self.val(p); p.expect(','); v, _ = self.val(p)
        d = self.slot(dst); m = self.m
        def ins(R, fr):
            with m.locked():
                old = m.load(R[x], ty)
                same = old is R[c] or (old.__class__ is Bits and R[c].__class__ is Bits and old.v == R[c].v) or icmp('eq', old, R[c], ty[1] if ty[0] == 'i' else 64)
                if same is not True and same is not False: raise Unsupported("symbolic cmpxchg")
                if same: m.store(R[x], ty, R[v])
            R[d] = [old, same]
        b.code.append(ins)
    def i_fence(self, b, dst, p): pass

    # ---- calls
    def i_call(self, b, dst, p):
        self.flags(p)
        while p.peek() in ('fastcc', 'ccc', 'coldcc'): p.next()
        p.skip_attrs()
        self.flags(p)
        rty = p.type()
        p.maybe_fntype(rty) if p.kind() == 'punct' and p.peek() == '(' else None
        if p.kind() == 'glob': callee = p.next(); ptr = None
        elif p.kind() == 'loc': ptr = self.slot(p.next()); callee = None
        elif p.peek() == 'asm': raise Unsupported("inline asm")
        else: raise Unsupported("call form")
        p.expect('(')
        args = []
        tys = []
        if not p.accept(')'):
            while True:
                ty = p.type()
                if ty == ('meta',):
                    return       # debug intrinsics
                p.skip_attrs()
                v = p.value(ty)
                args.append(self.opnd(v, ty)); tys.append(self.mod.resolve(ty))
                if p.accept(')'): break
                p.expect(',')
        d = self.slot(dst) if dst else None
        m = self.m
        if callee and callee.startswith('@llvm.'):
            from . import natives
            f = natives.intrinsic(m, callee, tys, self.mod.resolve(rty))
            if f is None: return
            if d is None:
                def ins(R, fr): f(fr, *[R[a] for a in args])
            else:
                def ins(R, fr): R[d] = f(fr, *[R[a] for a in args])
        elif callee:
            if d is None:
                def ins(R, fr): m.call_typed(callee, [R[a] for a in args], tys)
            else:
                def ins(R, fr): R[d] = m.call_typed(callee, [R[a] for a in args], tys)
        else:
            if d is None:
                def ins(R, fr): m.call_ptr(R[ptr], [R[a] for a in args], tys)
            else:
                def ins(R, fr): R[d] = m.call_ptr(R[ptr], [R[a] for a in args], tys)
        b.code.append(ins)


def bitcast_fn(mod, ty, to):
    if ty == to: return lambda v: v
    te = mod.resolve(ty[2]) if ty[0] == 'v' else ty
    oe = mod.resolve(to[2]) if to[0] == 'v' else to
    if (ty[0] == 'v') and (to[0] == 'v') and te == oe: return lambda v: v
    bt = te[1] if te[0] == 'i' else 8 * mod.size(te)
    bo = oe[1] if oe[0] == 'i' else 8 * mod.size(oe)
    if bt == bo and (ty[0] == 'v') == (to[0] == 'v'):
        n = bt // 8
        if ty[0] == 'v': return lambda v: [bitcast_elem(u, te[0], oe[0], n) for u in v]
        return lambda v: bitcast_elem(v, te[0], oe[0], n)
    # <n x i1> -> iN (movemask style)
    if te == ('i', 1) and to[0] == 'i':
        def f(v):
            acc = 0
            for i, u in enumerate(v):
                u = to_cond(u)
                if u is UNDEF: return UNDEF
                if u is True: acc = ival(acc, 1 << i, 'or', to[1])
                elif u is not False: acc = ival(acc, VIte(u, 1 << i, 0), 'or', to[1])
            return acc
        return f
    if ty[0] == 'i' and oe == ('i', 1):
        def f(v):
            if v.__class__ is not int: raise Unsupported("mask from symbolic integer")
            return [bool(v >> i & 1) for i in range(to[1])]
        return f
    # general regrouping on concrete data or whole multiples
    def g(v):
        vs = v if ty[0] == 'v' else [v]
        nb = bt // 8
        if bo > bt:
            k = bo // bt
            out = []
            for i in range(0, len(vs), k):
                part = vs[i:i + k]
                ints = [bitcast_elem(u, te[0], 'i', nb) for u in part]
                if all(u.__class__ is int for u in ints):
                    x = 0
                    for j, u in enumerate(ints): x |= u << (bt * j)
                    out.append(bitcast_elem(x, 'i', oe[0], bo // 8))
                elif any(u is UNDEF for u in ints): out.append(UNDEF)
                else:
                    cells = [(j * nb, (ints[j].v if ints[j].__class__ is Bits else ints[j], nb, 'f' if ints[j].__class__ is Bits and nb == 4 else 'd' if ints[j].__class__ is Bits else 'i')) for j in range(k)]
                    r = Raw(cells, bo // 8)
                    if oe[0] != 'i': r = FInt(r, bo // 8)
                    out.append(r)
        else:
            k = bt // bo
            out = []
            for u in vs:
                if u.__class__ is FInt: u = u.v
                if u is UNDEF: out.extend([UNDEF] * k); continue
                if u.__class__ is Raw:
                    for off, (x, nbytes, kk) in sorted(u.cells, key=lambda c: c[0]):
                        if nbytes * 8 != bo: raise Unsupported("regrouping bitcast")
                        out.append(bitcast_elem(x, kk, oe[0], nbytes) if kk != oe[0] else x)
                    continue
                x = bitcast_elem(u, te[0], 'i', nb)
                if x.__class__ is not int: raise Unsupported("splitting a symbolic value")
                for j in range(k):
                    out.append(bitcast_elem(x >> (bo * j) & ((1 << bo) - 1), 'i', oe[0], bo // 8))
        return out if to[0] == 'v' else out[0]
    return g


def compile_fn(mach, fn):
    return Compiler(mach, fn).compile()
