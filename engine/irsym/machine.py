"""Symbolic execution of parsed LLVM IR.

Concrete: control-flow structure, sizes, addresses.  Symbolic: float contents, conditions on them and everything
selected by such conditions.  A branch on a symbolic condition executes both sides up to the immediate post-dominator and merges
memory and phi values with if-then-else.
"""
import struct, sys
from fractions import Fraction
from . import sem
from .sem import (Poly, Cond, UNDEF, Special, Unsupported, is_const)
from .irparse import P, tokenize, Module, unescape

sys.setrecursionlimit(20000)


class Violation(Exception):
    def __init__(self, kind, msg):
        Exception.__init__(self, "%s: %s" % (kind, msg))
        self.kind, self.msg = kind, msg


class Dead(Exception):
    """path ended (noreturn call that is not a violation)"""


class Obj:
    __slots__ = ("name", "size", "base", "cells", "zero", "kind", "const", "freed", "seq", "fn", "sym")
    def __init__(self, name, size, base, kind, seq):
        self.name, self.size, self.base, self.kind, self.seq = name, size, base, kind, seq
        self.cells = {}
        self.zero = False
        self.const = False
        self.freed = False
        self.fn = None
    def __repr__(self): return "<%s:%s size %s>" % (self.kind, self.name, self.size)


class Ptr:
    __slots__ = ("obj", "off")
    def __init__(self, obj, off): self.obj, self.off = obj, off
    def __repr__(self): return "&%s+%d" % (self.obj.name, self.off)
    def __eq__(self, o): return isinstance(o, Ptr) and o.obj is self.obj and o.off == self.off
    def __hash__(self): return hash((id(self.obj), self.off))


class VIte:
    """if-then-else over non-float values (ints, pointers)"""
    __slots__ = ("c", "a", "b")
    def __init__(self, c, a, b): self.c, self.a, self.b = c, a, b
    def __repr__(self): return "ite(%r, %r, %r)" % (self.c, self.a, self.b)


class Bits:
    """an integer whose bits are those of a float value (from a bitcast or an int-typed copy of a float)"""
    __slots__ = ("v", "n")
    def __init__(self, v, n): self.v, self.n = v, n
    def __repr__(self): return "bits(%r)" % (self.v,)


class IntOf:
    """an integer given by an integer-valued real expression (truncated float) plus a shift amount"""
    __slots__ = ("p", "sh")
    def __init__(self, p, sh=0): self.p, self.sh = p, sh
    def __repr__(self): return "int(%r)<<%d" % (self.p, self.sh)


class FInt:
    """a float-typed value whose bits are the given (possibly symbolic) integer"""
    __slots__ = ("v", "n")
    def __init__(self, v, n): self.v, self.n = v, n
    def __repr__(self): return "asfloat(%r)" % (self.v,)


class Raw:
    """several memory cells copied through one wide integer"""
    __slots__ = ("cells", "n")
    def __init__(self, cells, n): self.cells, self.n = cells, n


def bits_of(v, n):
    """concrete float -> int bits"""
    import math
    if isinstance(v, Special): f = {"nan": math.nan, "inf": math.inf, "-inf": -math.inf}[v.kind]
    else: f = float(v)
    if n == 4:
        try: return struct.unpack('<I', struct.pack('<f', f))[0]
        except OverflowError: return 0x7f800000 if f > 0 else 0xff800000
    return struct.unpack('<Q', struct.pack('<d', f))[0]


def float_of_bits(b, n):
    if n == 4: f = struct.unpack('<f', struct.pack('<I', b & 0xffffffff))[0]
    else: f = struct.unpack('<d', struct.pack('<Q', b & (2**64 - 1)))[0]
    return sem.from_py(f)


def as_float(v, n=4):
    """float-typed register value -> real expression"""
    c = v.__class__
    if c is int or c is Fraction or c is Poly: return v
    if c is FInt:
        return int_bits_to_float(v.v, v.n)
    return v

def int_bits_to_float(v, n):
    if isinstance(v, int): return float_of_bits(v, n)
    if isinstance(v, Bits): return v.v
    if isinstance(v, VIte): return sem.ite(v.c, int_bits_to_float(v.a, n), int_bits_to_float(v.b, n))
    if isinstance(v, IntOf):
        if v.sh == 23 and n == 4:
            return sem.f_pow2(sem.sub(v.p, 127))     # exponent field; see lemma on its range
        if v.sh == 52 and n == 8:
            return sem.f_pow2(sem.sub(v.p, 1023))
    if v is UNDEF: return UNDEF
    raise Unsupported("float from integer bits %r" % (v,))


def vite(c, a, b):
    if c is True: return a
    if c is False: return b
    if a is b: return a
    ta, tb = type(a), type(b)
    if ta is int and tb is int and a == b: return a
    if ta is Ptr and tb is Ptr and a == b: return a
    return VIte(c, a, b)


def merge_vals(c, a, b, isfloat):
    if a is b: return a
    if a is UNDEF or b is UNDEF: return UNDEF
    if isinstance(a, list) or isinstance(a, tuple):
        return [merge_vals(c, x, y, isfloat) for x, y in zip(a, b)]
    if isinstance(a, (Cond, bool)) or isinstance(b, (Cond, bool)):
        return sem.c_ite(c, to_cond(a), to_cond(b))
    if isfloat: return sem.ite(c, as_float(a), as_float(b))
    return vite(c, a, b)


def to_cond(v):
    if v.__class__ is bool: return v
    if v.__class__ is int: return bool(v)
    if isinstance(v, Cond): return v
    if v is UNDEF: return UNDEF
    if isinstance(v, VIte): return sem.c_ite(v.c, to_cond(v.a), to_cond(v.b))
    raise Unsupported("condition %r" % (v,))


def map_int(f, *vs):
    """apply f on concrete leaves of ite-trees"""
    for k, v in enumerate(vs):
        if isinstance(v, VIte):
            l, r = list(vs), list(vs)
            l[k] = v.a; r[k] = v.b
            return vite(v.c, map_int(f, *l), map_int(f, *r))
    for v in vs:
        if v is UNDEF: return UNDEF
    return f(*vs)


class Block:
    __slots__ = ("name", "phis", "code", "term", "idx", "ipdom", "rpo")


class CFn:
    __slots__ = ("name", "template", "params", "entry", "blocks", "vararg", "floatret", "n")


class Machine:
    STACK0 = 0x7f0000000000
    def __init__(self, mod, params=None, natives=None, max_steps=40_000_000):
        self.mod = mod
        self.params = params or {}
        self.natives = {}
        self.seq = 0
        self.next_base = 0x100000
        self.journal = []
        self.jseq = []
        self.pc = []
        self.steps = 0
        self.blocks = 0
        self.max_steps = max_steps
        self.gobj = {}
        self.fnobj = {}
        self.heap = []
        self.race = None
        self.callstack = []
        self.fn_used = set()
        self.obs = []              # observations: (tag, index, value)
        self.merge_count = 0
        self.user = {}
        self.trace_exp = None
        self.addr_keys = []; self.addr_objs = []
        self.conds = []
        self.base_pc = 0
        from . import natives as N
        N.install(self)
        if natives: self.natives.update(natives)

    # ------------------------------------------------------------------ memory
    def new_obj(self, name, size, align, kind, residue=0):
        """base == residue modulo a power of two as small as the requested alignment allows: the address is never more aligned
        than promised (base = align*odd)."""
        self.seq += 1
        al = max(align, 1)
        base = (self.next_base + 4095) // 4096 * 4096
        self.next_base = base + (size if size else 0) + 4096 + 4096
        if residue: base += residue
        elif al < 4096: base += al
        o = Obj(name, size, base, kind, self.seq)
        self.addr_keys.append(base); self.addr_objs.append(o)
        return o

    def note_write(self, obj, off):
        if self.journal:
            j = self.journal[-1]
            k = (obj, off)
            if k not in j: j[k] = obj.cells.get(off)

    def set_cell(self, obj, off, cell):
        if self.journal:
            j = self.journal[-1]
            k = (obj, off)
            if k not in j: j[k] = obj.cells.get(off)
        if cell is None: obj.cells.pop(off, None)
        else: obj.cells[off] = cell

    def check_access(self, p, size, what, align=1):
        if p.__class__ is not Ptr:
            if p is UNDEF: raise Violation("uninitialised", "%s through an uninitialised pointer" % what)
            if p.__class__ is int: raise Violation("invalid-pointer", "%s of %d bytes through %s" % (what, size, "NULL" if p == 0 else hex(p)))
            raise Unsupported("%s through %r" % (what, p))
        o = p.obj
        off = p.off
        if off.__class__ is not int: raise Unsupported("symbolic offset")
        if o.kind == "func": raise Violation("invalid-pointer", "%s of a function" % what)
        if off < 0 or off + size > o.size:
            raise Violation("out-of-bounds", "%s of %d bytes at offset %d of %s (size %d)" % (what, size, off, o.name, o.size))
        if o.freed: raise Violation("use-after-free", "%s of %s" % (what, o.name))
        if align > 1 and (o.base + off) % align:
            raise Violation("misaligned", "%s of %d bytes needs %d-byte alignment, address of %s+%d is %d mod %d" % (what, size, align, o.name, off, (o.base + off) % align, align))

    def log_access(self, o, off, size, wr):
        r = self.race
        if o.seq <= r["seq"] or o in r["shared"]:
            s = r["w"] if wr else r["r"]
            if r["lock"]: s = r["lw"] if wr else r["lr"]
            for u in range(off // 4, (off + size + 3) // 4): s.add((o, u))

    def load_cell(self, o, off, size, kind):
        """kind: 'f','d' float types, 'i' int, 'p' pointer"""
        c = o.cells.get(off)
        if c is not None and c[1] == size:
            v, _, k = c
            if k == kind or v is UNDEF: return v
            return self.conv(v, k, kind, size)
        if c is None and o.zero and not self.overlap(o, off, size): return 0
        return self.gather(o, off, size, kind)

    def conv(self, v, k, kind, size):
        if kind == 'f' or kind == 'd':
            if k == 'i':
                if v.__class__ is int: return float_of_bits(v, size)
                if v.__class__ is Bits: return v.v
                return FInt(v, size)
            if k == 'p' and v == 0: return 0
            raise Unsupported("load float from pointer cell")
        if kind == 'i':
            if k in 'fd':
                v2 = v
                if is_const(v2) or isinstance(v2, Special): return bits_of(v2, size)
                if isinstance(v2, FInt): return v2.v
                return Bits(v2, size)
            return v        # pointer read as integer
        if kind == 'p':
            return v
        raise Unsupported("convert %s->%s" % (k, kind))

    def overlap(self, o, off, size):
        cells = o.cells
        for x in range(off - 63, off + size):
            c = cells.get(x)
            if c is not None and x + c[1] > off: return True
        return False

    def gather(self, o, off, size, kind):
        bs = []
        cells = o.cells
        parts = []
        x = off
        okwhole = True
        while x < off + size:
            found = None
            c = cells.get(x)
            if c is not None:
                found = (x, c)
            else:
                for y in range(x - 1, x - 64, -1):
                    c = cells.get(y)
                    if c is not None:
                        if y + c[1] > x: found = (y, c)
                        break
            if found is None:
                if o.zero: parts.append((x - off, (0, 1, 'i'))); bs.append(0); x += 1; continue
                bs.append(None); x += 1; okwhole = False; continue
            y, c = found
            n = min(y + c[1], off + size) - x
            whole = (x == y and n == c[1])
            if whole: parts.append((x - off, c))
            else: okwhole = False
            b = self.cell_bytes(c)
            if b is None:
                bs.extend([UNDEF if c[0] is UNDEF else c] * n)
            else:
                bs.extend(b[x - y:x - y + n])
            x += n
        if all(b.__class__ is int for b in bs):
            v = int.from_bytes(bytes(bs), 'little')
            if kind == 'f' or kind == 'd': return float_of_bits(v, size)
            return v
        if any(b is None or b is UNDEF for b in bs): 
            if okwhole and kind == 'i': return Raw(parts, size)
            return UNDEF
        if okwhole and kind == 'i': return Raw(parts, size)
        raise Unsupported("partial read of a symbolic value")

    def cell_bytes(self, c):
        v, n, k = c
        if v.__class__ is int and k in 'ip': return (v & ((1 << (8 * n)) - 1)).to_bytes(n, 'little')
        if k in 'fd' and (is_const(v) or isinstance(v, Special)): return bits_of(v, n).to_bytes(n, 'little')
        return None

    def clear_range(self, o, off, size):
        """remove or split the cells overlapping [off, off+size)"""
        cells = o.cells
        for x in range(off - 63, off + size):
            c = cells.get(x)
            if c is None: continue
            e = x + c[1]
            if e <= off: continue
            if x >= off and e <= off + size:
                self.set_cell(o, x, None); continue
            b = self.cell_bytes(c)
            self.set_cell(o, x, None)
            for i in range(c[1]):
                if off <= x + i < off + size: continue
                self.set_cell(o, x + i, ((b[i] if b is not None else UNDEF), 1, 'i'))

    def store_cell(self, o, off, size, kind, v):
        c = o.cells.get(off)
        if c is None or c[1] != size:
            if o.cells: self.clear_range(o, off, size)
        if v.__class__ is Raw:
            for r, c in v.cells: self.set_cell(o, off + r, c)
            return
        if v.__class__ is Bits and kind == 'i':
            v = v.v; kind = 'f' if size == 4 else 'd'
        elif v.__class__ is Ptr: kind = 'p'
        if self.journal:
            j = self.journal[-1]
            k = (o, off)
            if k not in j: j[k] = o.cells.get(off)
        o.cells[off] = (v, size, kind)

    def load(self, p, ty, align=1):
        if p.__class__ is VIte:
            a, b = self.load(p.a, ty, align), self.load(p.b, ty, align)
            return merge_vals(p.c, a, b, self.is_float_ty(ty))
        k = ty[0]
        if k == 'v':
            n, e = ty[1], ty[2]
            if e == ('i', 1):
                w = (n + 7) // 8
                self.check_access(p, w, "load", align)
                v = self.load_cell(p.obj, p.off, w, 'i')
                if not isinstance(v, int): raise Unsupported("load of symbolic mask")
                return [bool(v >> i & 1) for i in range(n)]
            es = self.mod.size(e)
            self.check_access(p, n * es, "load", align)
            o, off = p.obj, p.off
            if self.race is not None: self.log_access(o, off, n * es, False)
            kk = e[0]
            return [self.load_cell(o, off + i * es, es, kk) for i in range(n)]
        if k == 'n':
            return self.load(p, self.mod.resolve(ty), align)
        if k == 's':
            return [self.load(Ptr(p.obj, p.off + self.mod.field_off(ty, i)), e, 1) for i, e in enumerate(ty[1])]
        if k == 'a':
            es = self.mod.size(ty[2])
            return [self.load(Ptr(p.obj, p.off + i * es), ty[2], 1) for i in range(ty[1])]
        size = self.mod.size(ty)
        self.check_access(p, size, "load", align)
        if self.race is not None: self.log_access(p.obj, p.off, size, False)
        v = self.load_cell(p.obj, p.off, size, k if k != 'h' else 'i')
        if k == 'i' and v.__class__ is int and ty[1] < 8 * size: v &= (1 << ty[1]) - 1
        if k == 'i' and ty[1] == 1 and v.__class__ is VIte: return to_cond(v)
        return v

    def is_float_ty(self, ty):
        ty = self.mod.resolve(ty)
        if ty[0] == 'v': return ty[2][0] in 'fd'
        return ty[0] in 'fd'

    def store(self, p, ty, v, align=1):
        if p.__class__ is VIte:
            old_a = self.load(p.a, ty, align); old_b = self.load(p.b, ty, align)
            fl = self.is_float_ty(ty)
            self.store(p.a, ty, merge_vals(p.c, v, old_a, fl), align)
            # p.a and p.b may not alias partially; equal pointers were collapsed
            self.store(p.b, ty, merge_vals(p.c, old_b, v, fl), align)
            return
        k = ty[0]
        if k == 'v':
            n, e = ty[1], ty[2]
            if e == ('i', 1):
                w = (n + 7) // 8
                self.check_access(p, w, "store", align)
                bits = 0
                for i, x in enumerate(v):
                    x = to_cond(x)
                    if x is True: bits |= 1 << i
                    elif x is not False: raise Unsupported("store of symbolic mask")
                self.store_cell(p.obj, p.off, w, 'i', bits)
                return
            es = self.mod.size(e)
            self.check_access(p, n * es, "store", align)
            o, off = p.obj, p.off
            if o.const: raise Violation("write-to-constant", "store to %s" % o.name)
            if self.race is not None: self.log_access(o, off, n * es, True)
            kk = e[0]
            for i in range(n):
                self.store_cell(o, off + i * es, es, kk, v[i])
            return
        if k == 'n': return self.store(p, self.mod.resolve(ty), v, align)
        if k == 's':
            for i, e in enumerate(ty[1]): self.store(Ptr(p.obj, p.off + self.mod.field_off(ty, i)), e, v[i], 1)
            return
        if k == 'a':
            es = self.mod.size(ty[2])
            for i in range(ty[1]): self.store(Ptr(p.obj, p.off + i * es), ty[2], v[i], 1)
            return
        size = self.mod.size(ty)
        self.check_access(p, size, "store", align)
        if p.obj.const: raise Violation("write-to-constant", "store to %s" % p.obj.name)
        if self.race is not None: self.log_access(p.obj, p.off, size, True)
        if k == 'i' and (v.__class__ is bool or isinstance(v, Cond)):
            v = int(v) if v.__class__ is bool else VIte(v, 1, 0)
        self.store_cell(p.obj, p.off, size, k if k != 'h' else 'i', v)

    def memcpy(self, d, s, n):
        if n == 0: return
        self.check_access(d, n, "memcpy write"); self.check_access(s, n, "memcpy read")
        if d.obj.const: raise Violation("write-to-constant", "memcpy to %s" % d.obj.name)
        if self.race is not None:
            self.log_access(s.obj, s.off, n, False); self.log_access(d.obj, d.off, n, True)
        so, src = s.off, s.obj
        items = []
        x = so
        cells = src.cells
        # leading partial cell
        while x < so + n:
            c = cells.get(x)
            if c is not None and x + c[1] <= so + n:
                items.append((x - so, c)); x += c[1]; continue
            if c is None:
                cov = None
                for y in range(x - 1, x - 64, -1):
                    cc = cells.get(y)
                    if cc is not None:
                        if y + cc[1] > x: cov = (y, cc)
                        break
                if cov is None:
                    items.append((x - so, None)); x += 1; continue
                y, cc = cov
            else:
                y, cc = x, c
            b = self.cell_bytes(cc)
            e = min(y + cc[1], so + n)
            for z in range(x, e):
                items.append((z - so, ((b[z - y] if b is not None else UNDEF), 1, 'i')))
            x = e
        self.clear_range(d.obj, d.off, n)
        zero = src.zero
        for r, c in items:
            if c is None:
                if zero: self.set_cell(d.obj, d.off + r, (0, 1, 'i'))
                elif d.obj.zero: self.set_cell(d.obj, d.off + r, (UNDEF, 1, 'i'))
            else: self.set_cell(d.obj, d.off + r, c)

    def memset(self, d, b, n):
        if n == 0: return
        self.check_access(d, n, "memset")
        if d.obj.const: raise Violation("write-to-constant", "memset to %s" % d.obj.name)
        if self.race is not None: self.log_access(d.obj, d.off, n, True)
        self.clear_range(d.obj, d.off, n)
        x, e = d.off, d.off + n
        o = d.obj
        if b.__class__ is not int: raise Unsupported("memset with symbolic byte")
        b &= 255
        w = b * 0x01010101
        while x < e:
            if x % 4 == 0 and x + 4 <= e: self.set_cell(o, x, (w, 4, 'i')); x += 4
            else: self.set_cell(o, x, (b, 1, 'i')); x += 1

    # strings
    def read_cstr(self, p, limit=100000):
        out = bytearray()
        if p.__class__ is not Ptr: raise Violation("invalid-pointer", "string read through %r" % (p,))
        i = 0
        while True:
            q = Ptr(p.obj, p.off + i)
            v = self.load(q, ('i', 8))
            if v is UNDEF: raise Violation("uninitialised", "string %s" % p.obj.name)
            if v.__class__ is not int: raise Unsupported("symbolic string")
            if v == 0: return bytes(out)
            out.append(v); i += 1

    def write_bytes(self, p, bs):
        self.check_access(p, len(bs), "write")
        if self.race is not None: self.log_access(p.obj, p.off, len(bs), True)
        self.clear_range(p.obj, p.off, len(bs))
        for i, b in enumerate(bs): self.set_cell(p.obj, p.off + i, (b, 1, 'i'))

    def read_bytes(self, p, n):
        self.check_access(p, n, "read") if n else None
        return [self.load_cell(p.obj, p.off + i, 1, 'i') for i in range(n)]

    def malloc(self, n, align=16, zero=False, name=None):
        if n.__class__ is not int: raise Unsupported("symbolic allocation size")
        if n > (1 << 40): return 0
        o = self.new_obj(name or "heap#%d" % (self.seq + 1), n, align, "heap")
        o.zero = zero
        self.heap.append(o)
        return Ptr(o, 0)

    def free(self, p):
        if p == 0 and p.__class__ is int: return
        if p.__class__ is not Ptr: raise Violation("invalid-free", "free of %r" % (p,))
        if p.obj.kind != "heap" or p.off != 0: raise Violation("invalid-free", "free of %r" % (p,))
        if p.obj.freed: raise Violation("double-free", "free of %s" % p.obj.name)
        if self.journal and p.obj.seq <= self.jseq[-1]: raise Unsupported("free under a symbolic branch")
        p.obj.freed = True

    # ------------------------------------------------------------------ globals / functions
    def global_ptr(self, name):
        if name in self.mod.fns or name in self.mod.decls or name in self.natives:
            if name not in self.mod.globals:
                return Ptr(self.fn_obj(name), 0)
        o = self.gobj.get(name)
        if o is None:
            ty, init, const, al = self.mod.globals[name]
            size = self.mod.size(ty)
            o = self.new_obj(name, size, max(al, 1), "global")
            o.seq = 0
            o.const = False
            self.gobj[name] = o
            if init is None:
                o.zero = True
            else:
                self.init_global(o, 0, ty, init)
            o.const = const
        return Ptr(o, 0)

    def fn_obj(self, name):
        o = self.fnobj.get(name)
        if o is None:
            o = self.new_obj(name, 0, 16, "func")
            o.fn = name
            o.seq = 0
            self.fnobj[name] = o
        return o

    def init_global(self, o, off, ty, init):
        ty = self.mod.resolve(ty)
        k = init[0]
        if k == 'zero' or k == 'undef':
            n = self.mod.size(ty)
            if off == 0 and n == o.size: o.zero = True
            else:
                for i in range(0, n): o.cells[off + i] = (0, 1, 'i')
            return
        if ty[0] == 'a' or ty[0] == 'v':
            es = self.mod.size(ty[2])
            if k == 'const':
                for i, b in enumerate(init[1]): o.cells[off + i] = (b, 1, 'i')
                return
            for i, (ety, v) in enumerate(init[1]): self.init_global(o, off + i * es, ety, v)
            return
        if ty[0] == 's':
            for i, (ety, v) in enumerate(init[1]): self.init_global(o, off + self.mod.field_off(ty, i), ety, v)
            return
        v = self.const_value(init, ty)
        o.cells[off] = (v, self.mod.size(ty), ty[0])

    def const_value(self, v, ty):
        ty = self.mod.resolve(ty)
        k = v[0]
        if k == 'const':
            if ty == ('i', 1): return bool(v[1])
            return v[1]
        if k == 'undef':
            return [UNDEF] * ty[1] if ty[0] in 'va' else ([UNDEF] * len(ty[1]) if ty[0] == 's' else UNDEF)
        if k == 'zero':
            if ty[0] in 'va': return [self.const_value(('zero',), ty[2])] * ty[1]
            if ty[0] == 's': return [self.const_value(('zero',), e) for e in ty[1]]
            if ty == ('i', 1): return False
            return 0
        if k == 'agg': return [self.const_value(x, t) for t, x in v[1]]
        if k == 'glob': return self.global_ptr(v[1])
        if k == 'cgep':
            _, bty, ops = v
            p = self.const_value(ops[0][1], ops[0][0])
            idx = [(t, self.const_value(x, t)) for t, x in ops[1:]]
            return self.gep_const(p, bty, [(i, t[1]) for t, i in idx])
        if k == 'ccast':
            _, op, ity, x, oty = v
            x = self.const_value(x, ity)
            if op in ('bitcast', 'addrspacecast'): return x
            if op == 'ptrtoint': return x.obj.base + x.off if isinstance(x, Ptr) else x
            if op == 'inttoptr': return x
            if op == 'trunc': return x & ((1 << oty[1]) - 1)
            return x
        if k == 'cbin':
            _, op, ity, a, b = v
            return int_bin(op, self.const_value(a, ity), self.const_value(b, ity), ity[1])
        raise Unsupported("constant %r" % (v,))

    def gep_const(self, p, bty, idx):
        off = 0
        ty = bty
        for j, (i, bits) in enumerate(idx):
            i = sx(i, bits)
            if j == 0: off += i * self.mod.size(ty); continue
            ty = self.mod.resolve(ty)
            if ty[0] in 'av': off += i * self.mod.size(ty[2]); ty = ty[2]
            else: off += self.mod.field_off(ty, i); ty = ty[1][i]
        return Ptr(p.obj, p.off + off)

    # ------------------------------------------------------------------ calls
    def call_typed(self, name, args, tys):
        return self.call_fn(name, args, tys)

    def call_fn(self, name, args, tys=None):
        f = self.mod.fns.get(name)
        if f is None:
            nat = self.natives.get(name)
            if nat is not None: return nat(self, args, tys)
            raise Unsupported("call of undefined function %s" % name)
        cf = f.compiled
        if cf is None:
            from .compile import compile_fn
            cf = f.compiled = compile_fn(self, f)
        self.fn_used.add(name)
        if len(self.callstack) > 400: raise Violation("stack-overflow", "recursion deeper than 400 frames in %s" % name)
        R = cf.template[:]
        np_ = len(cf.params)
        for i in range(np_): R[cf.params[i]] = args[i]
        fr = Frame(cf, R)
        if cf.vararg:
            fr.varargs = list(args[np_:])
            fr.vartys = list(tys[np_:]) if tys else None
        self.callstack.append(fr)
        try:
            kind, val, _ = self.run(fr, cf.entry, None, None)
        except (Violation, Unsupported) as e:
            if not hasattr(e, "where"): e.where = [fr2.cf.name for fr2 in self.callstack]
            raise
        finally:
            self.callstack.pop()
        for o in fr.allocas: o.freed = True
        if kind == 'dead': raise Dead()
        return val

    class _Lock:
        def __init__(self, m): self.m = m
        def __enter__(self):
            if self.m.race is not None: self.m.race["lock"] += 1
        def __exit__(self, *a):
            if self.m.race is not None: self.m.race["lock"] -= 1
    def locked(self): return Machine._Lock(self)

    def ptr_at(self, v):
        """pointer for an address (inttoptr)"""
        if v < 4096: return v
        import bisect
        i = bisect.bisect_right(self.addr_keys, v) - 1
        best = None
        for j in (i, i + 1):
            if 0 <= j < len(self.addr_objs):
                o = self.addr_objs[j]
                d = 0 if o.base <= v <= o.base + o.size else min(abs(v - o.base), abs(v - o.base - o.size))
                if best is None or d < best[0]: best = (d, o)
        if best is None or best[0] > 4096: return v
        return Ptr(best[1], v - best[1].base)

    def call_ptr(self, p, args, tys=None):
        if p.__class__ is VIte: return self.call_vite(p, args)
        if p.__class__ is not Ptr or p.obj.kind != "func":
            if p is UNDEF: raise Violation("uninitialised", "call through an uninitialised function pointer")
            raise Violation("invalid-call", "call through %r" % (p,))
        return self.call_fn(p.obj.fn, args, tys)

    def call_vite(self, p, args):
        raise Unsupported("call through a symbolic function pointer")

    # ------------------------------------------------------------------ running
    def known(self, c):
        for x in self.pc:
            if x is c: return True
        n = sem.c_not(c)
        for x in self.pc:
            if x is n: return False
        return None

    def run(self, fr, blk, prev, stop, phivals=None):
        """returns ('ret', value, None) | ('stop', prev_block, phivals) | ('dead', None, None)"""
        R = fr.R
        while True:
            if blk is stop:
                return ('stop', prev, phivals)
            self.blocks += 1
            if blk.phis:
                if phivals is None:
                    vals = [R[src[prev]] for _, src, _ in blk.phis]
                    for (d, _, _), v in zip(blk.phis, vals): R[d] = v
                else:
                    for (d, _, _), v in zip(blk.phis, phivals): R[d] = v
            phivals = None
            fr.blk = blk
            self.steps += len(blk.code) + 1
            if self.steps > self.max_steps: raise Unsupported("step limit")
            try:
                for ins in blk.code: ins(R, fr)
            except Dead:
                return ('dead', None, None)
            t = blk.term
            k = t[0]
            if k == 'br':
                prev, blk = blk, t[1]
            elif k == 'cbr':
                c = R[t[1]]
                if c is True: prev, blk = blk, t[2]
                elif c is False: prev, blk = blk, t[3]
                else:
                    if c.__class__ is VIte or c.__class__ is int: c = to_cond(c)
                    if c is UNDEF: raise Violation("uninitialised", "branch on an uninitialised value in %s" % fr.cf.name)
                    if c is not True and c is not False:
                        kn = self.known(c)
                        if kn is not None: c = kn
                    if c is True: prev, blk = blk, t[2]; continue
                    if c is False: prev, blk = blk, t[3]; continue
                    if t[2] is t[3] : prev, blk = blk, t[2]; continue
                    r = self.fork(fr, blk, [(c, t[2]), (sem.c_not(c), t[3])], stop)
                    if r[0] != 'cont': return r
                    prev, blk, phivals = r[1], r[2], r[3]
                    R = fr.R
            elif k == 'ret':
                return ('ret', R[t[1]] if t[1] is not None else None, None)
            elif k == 'switch':
                v = R[t[1]]
                if v is UNDEF: raise Violation("uninitialised", "switch on an uninitialised value in %s" % fr.cf.name)
                if v.__class__ is VIte:
                    groups = {}
                    def leaves(x, c):
                        if x.__class__ is VIte:
                            leaves(x.a, sem.c_and(c, x.c)); leaves(x.b, sem.c_and(c, sem.c_not(x.c)))
                        else:
                            tgt = t[3].get(x, t[2])
                            groups[tgt] = sem.c_or(groups.get(tgt, False), c)
                    leaves(v, True)
                    alts = [(c, b) for b, c in groups.items() if c is not False]
                    if len(alts) == 1: prev, blk = blk, alts[0][1]; continue
                    r = self.fork(fr, blk, alts, stop)
                    if r[0] != 'cont': return r
                    prev, blk, phivals = r[1], r[2], r[3]
                    R = fr.R
                    continue
                prev, blk = blk, t[3].get(v, t[2])
            elif k == 'unreachable':
                raise Violation("unreachable", "reached unreachable code in %s" % fr.cf.name)
            else: raise Unsupported("terminator " + k)

    def fork(self, fr, blk, alts, stop):
        """alts: [(cond, target)], exclusive and exhaustive.  Executes each to the join block and merges."""
        J = blk.ipdom
        self.merge_count += 1
        R0 = fr.R
        outs = []
        for c, tgt in alts:
            self.journal.append({})
            self.jseq.append(self.seq)
            npc = len(self.pc)
            self.pc.append(c)
            fr.R = R0[:]
            try:
                r = self.run(fr, tgt, blk, J)
            except Violation as e:
                # is the path feasible?
                if not hasattr(e, "pc"):
                    e.pc = list(self.pc)
                    if not self.feasible(e.pc): r = ('dead', None, None)
                    else: raise
                else: raise
            finally:
                del self.pc[npc:]
            j = self.journal.pop()
            self.jseq.pop()
            new = {k: k[0].cells.get(k[1]) for k in j}
            for k, old in j.items():
                if old is None: k[0].cells.pop(k[1], None)
                else: k[0].cells[k[1]] = old
            if r[0] != 'dead': outs.append((c, r, fr.R, new))
        fr.R = R0
        if not outs: return ('dead', None, None)
        # merge memory
        if len(outs) == 1:
            c, r, R, new = outs[0]
            for k, cell in new.items(): self.set_cell(k[0], k[1], cell)
            fr.R = R
            self.pc.append(c)      # the other sides ended: c holds from here on (within the enclosing scope)
            if r[0] == 'ret': return r
            return self._resume(fr, J, r, stop, R)
        c, r, R, new = outs[-1]
        acc_mem, acc_r, acc_R = new, r, R
        for c, r, R, new in reversed(outs[:-1]):
            keys = set(new) | set(acc_mem)
            mm = {}
            for k in keys:
                cur = k[0].cells.get(k[1])
                a = new[k] if k in new else cur
                b = acc_mem[k] if k in acc_mem else cur
                mm[k] = self.merge_cell(c, a, b, k[0])
            acc_mem = mm
            if r[0] == 'ret' and acc_r[0] == 'ret':
                v = None
                if r[1] is not None: v = merge_vals(c, r[1], acc_r[1], fr.cf.floatret)
                acc_r = ('ret', v, None)
            elif r[0] == 'stop' and acc_r[0] == 'stop':
                pv = []
                pa = self._phis(J, r, R); pb = self._phis(J, acc_r, acc_R)
                for (d, _, isf), x, y in zip(J.phis, pa, pb): pv.append(merge_vals(c, x, y, isf))
                acc_r = ('stop', None, pv)
                acc_R = R
            else: raise Unsupported("sides of a symbolic branch end differently in %s" % fr.cf.name)
        for k, cell in acc_mem.items(): self.set_cell(k[0], k[1], cell)
        if acc_r[0] == 'ret': return acc_r
        # registers: anything used after the join is defined before the branch or by the join's phis
        fr.R = R0
        if J is stop:
            return ('stop', None, acc_r[2])
        return ('cont', None, J, acc_r[2])

    def _phis(self, J, r, R):
        if r[2] is not None: return r[2]
        return [R[src[r[1]]] for _, src, _ in J.phis]

    def _resume(self, fr, J, r, stop, R):
        pv = self._phis(J, r, R)
        if J is stop: return ('stop', None, pv)
        return ('cont', None, J, pv)

    def merge_cell(self, c, a, b, o):
        if a is b: return a
        if a is None or b is None:
            z = a or b
            if o.zero: 
                zc = (0, z[1], z[2])
                a = a or zc; b = b or zc
            else: return (UNDEF, z[1], z[2])
        if a[1] != b[1]: raise Unsupported("memory cells of different size merge")
        ka, kb = a[2], b[2]
        if ka != kb:
            k = 'f' if 'f' in (ka, kb) else 'd' if 'd' in (ka, kb) else 'i'
            va = self.conv(a[0], ka, k, a[1]) if ka != k else a[0]
            vb = self.conv(b[0], kb, k, a[1]) if kb != k else b[0]
            return (merge_vals(c, va, vb, k in 'fd'), a[1], k)
        return (merge_vals(c, a[0], b[0], ka in 'fd'), a[1], ka)

    def feasible(self, pc):
        from . import smt
        r = smt.check_conds(pc, self.user.get("assume", []))
        return r != "unsat"


class Frame:
    __slots__ = ("cf", "R", "blk", "allocas", "varargs", "vartys", "stack")
    def __init__(self, cf, R):
        self.cf, self.R = cf, R
        self.blk = None
        self.allocas = []
        self.varargs = None
        self.vartys = None


def sx(v, bits):
    if v >= 1 << (bits - 1): return v - (1 << bits)
    return v


def int_bin(op, a, b, n):
    M = (1 << n) - 1
    if op == 'add': return (a + b) & M
    if op == 'sub': return (a - b) & M
    if op == 'mul': return (a * b) & M
    if op == 'and': return a & b
    if op == 'or': return a | b
    if op == 'xor': return a ^ b
    if op == 'shl': return (a << b) & M if b < n else 0
    if op == 'lshr': return a >> b if b < n else 0
    if op == 'ashr': return (sx(a, n) >> min(b, n - 1)) & M
    if op in ('udiv', 'urem', 'sdiv', 'srem'):
        if b == 0: raise Violation("division-by-zero", "integer %s" % op)
        if op == 'udiv': return a // b
        if op == 'urem': return a % b
        x, y = sx(a, n), sx(b, n)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0): q = -q
        if op == 'sdiv': return q & M
        return (x - q * y) & M
    raise Unsupported("int op " + op)
