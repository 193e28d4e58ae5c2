"""Parser for the textual LLVM IR (clang 18, opaque pointers) subset that the /repo sources compile to."""
import re
from fractions import Fraction
import struct

TOK = re.compile(r'''
   (?P<str>c?"(?:[^"\\]|\\[0-9a-fA-F]{2}|\\\\)*")
 | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:"[^"]*"|[-a-zA-Z$._0-9]+)?)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+\.\d+(?:[eE][-+]?\d+)?|-?0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)
 | (?P<word>[a-zA-Z_$][-a-zA-Z$._0-9]*)
 | (?P<dots>\.\.\.)
 | (?P<punct>[(){}\[\]<>,=*|:])
 | (?P<ws>\s+)
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        if s[pos] == ';': break
        m = TOK.match(s, pos)
        if not m: raise SyntaxError("cannot tokenize %r" % s[pos:pos + 60])
        pos = m.end()
        k = m.lastgroup
        if k != 'ws': out.append((k, m.group()))
    return out


class P:
    """token stream"""
    def __init__(self, toks, mod): self.t, self.i, self.mod = toks, 0, mod
    def peek(self, k=0): return self.t[self.i + k][1] if self.i + k < len(self.t) else None
    def kind(self, k=0): return self.t[self.i + k][0] if self.i + k < len(self.t) else None
    def next(self):
        v = self.t[self.i][1]; self.i += 1; return v
    def accept(self, v):
        if self.peek() == v: self.i += 1; return True
        return False
    def expect(self, v):
        if not self.accept(v): raise SyntaxError("expected %r, got %r in %s" % (v, self.peek(), " ".join(x[1] for x in self.t)))

    # ---- types
    def type(self):
        t = self.next()
        if t == 'void': return ('void',)
        if t == 'ptr':
            if self.peek() == 'addrspace':
                self.next(); self.expect('('); self.next(); self.expect(')')
            return ('p',)
        if t == 'float': return ('f',)
        if t == 'double': return ('d',)
        if t == 'half': return ('h',)
        if t == 'x86_fp80' or t == 'fp128': return ('x',)
        if t == 'metadata': return ('meta',)
        if t == 'label': return ('label',)
        if re.fullmatch(r'i\d+', t): return ('i', int(t[1:]))
        if t == '<':
            if self.peek() == '{':
                s = self.type(); self.expect('>')
                return ('s', s[1], True)
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect('>')
            return ('v', n, e)
        if t == '[':
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect(']')
            return ('a', n, e)
        if t == '{':
            el = []
            if not self.accept('}'):
                while True:
                    el.append(self.type())
                    if self.accept('}'): break
                    self.expect(',')
            return ('s', tuple(el), False)
        if t[0] == '%':
            return self.mod.named(t)
        raise SyntaxError("type %r in %s" % (t, " ".join(x[1] for x in self.t)))

    def maybe_fntype(self, ty):
        """after a return type: '(argtypes...)' of a call with explicit function type"""
        if self.peek() == '(' :
            d = 0
            while True:
                x = self.next()
                if x == '(': d += 1
                elif x == ')':
                    d -= 1
                    if d == 0: break
        return ty

    # ---- values; returns ('reg',name) | ('const', ty, value) | ('glob', name) | ('gep',...)
    def value(self, ty):
        k, t = self.kind(), self.peek()
        if k == 'loc': self.next(); return ('reg', t)
        if k == 'glob': self.next(); return ('glob', t)
        if k == 'num':
            self.next()
            return ('const', parse_num(t, ty))
        if k == 'str':
            self.next()
            return ('const', list(unescape(t)))
        if t in ('true', 'false'): self.next(); return ('const', 1 if t == 'true' else 0)
        if t == 'null': self.next(); return ('const', 0)
        if t in ('undef', 'poison'): self.next(); return ('undef', ty)
        if t == 'zeroinitializer': self.next(); return ('zero', ty)
        if t == '<':
            self.next()
            if self.peek() == '{':
                self.next(); el = self._list('}'); self.expect('>')
            else: el = self._list('>')
            return ('agg', el)
        if t == '[': self.next(); return ('agg', self._list(']'))
        if t == '{': self.next(); return ('agg', self._list('}'))
        if t == 'splat':
            self.next(); self.expect('('); ety = self.type(); v = self.value(ety); self.expect(')')
            return ('agg', [(ety, v)] * ty[1])
        if t == 'getelementptr':
            self.next(); self.accept('inbounds'); self.expect('(')
            bty = self.type(); self.expect(',')
            ops = self._list(')')
            return ('cgep', bty, ops)
        if t in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'addrspacecast', 'zext', 'sext'):
            self.next(); self.expect('(')
            ity = self.type(); v = self.value(ity); self.expect('to'); oty = self.type(); self.expect(')')
            return ('ccast', t, ity, v, oty)
        if t in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl'):
            self.next()
            while self.peek() in ('nuw', 'nsw', 'exact'): self.next()
            self.expect('('); ity = self.type(); a = self.value(ity); self.expect(','); ity2 = self.type(); b = self.value(ity2); self.expect(')')
            return ('cbin', t, ity, a, b)
        raise SyntaxError("value %r in %s" % (t, " ".join(x[1] for x in self.t)))

    def _list(self, end):
        el = []
        if self.accept(end): return el
        while True:
            while self.peek() in ('inrange',): self.next()
            ty = self.type()
            el.append((ty, self.value(ty)))
            if self.accept(end): return el
            self.expect(',')

    def skip_attrs(self):
        while True:
            t = self.peek()
            if t is None: return
            if t in ATTRS:
                self.next()
                if self.peek() == '(':
                    self._skip_paren()
                elif t == 'align' and self.kind() == 'num': self.next()
                continue
            if self.kind() == 'attr': self.next(); continue
            if self.kind() == 'str': 
                self.next()
                if self.accept('='): self.next()
                continue
            return
    def _skip_paren(self):
        d = 0
        while True:
            x = self.next()
            if x == '(': d += 1
            elif x == ')':
                d -= 1
                if d == 0: return

ATTRS = set("""noundef signext zeroext inreg nonnull noalias nocapture readonly readnone writeonly returned dereferenceable
 dereferenceable_or_null align nofree immarg byval sret nest swiftself inalloca elementtype allocptr allocalign noreturn nounwind
 dso_local local_unnamed_addr unnamed_addr internal private external hidden constant global common linkonce_odr weak
 fastcc ccc coldcc tail musttail notail writable dead_on_unwind range nofpclass memory allockind noinline preallocated
 nnan ninf nsz arcp contract afn reassoc fast nsw nuw exact disjoint nneg samesign captures""".split())


def parse_num(t, ty):
    if ty[0] in ('f', 'd'):
        if t.startswith('0x'):
            v = struct.unpack('>d', int(t, 16).to_bytes(8, 'big'))[0]
        else: v = float(t)
        from .sem import from_py
        return from_py(v)
    if ty[0] == 'x': raise SyntaxError("x86_fp80 constant")
    v = int(t, 0)
    if ty[0] == 'i': v &= (1 << ty[1]) - 1
    return v


def unescape(s):
    if s[0] == 'c': s = s[1:]
    s = s[1:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\': out.append(92); i += 2
            else: out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.extend(s[i].encode('latin-1', 'replace')); i += 1
    return bytes(out)


class Fn:
    __slots__ = ('name', 'ret', 'params', 'blocks', 'order', 'vararg', 'compiled')


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}      # name -> (type, init|None, const?, align)
        self.fns = {}
        self.decls = {}
        self.aliases = {}
    def named(self, n):
        return ('n', n)
    def resolve(self, ty):
        while ty[0] == 'n': ty = self.types[ty[1]]
        return ty

    # ---- layout
    def size(self, ty):
        ty = self.resolve(ty)
        k = ty[0]
        if k == 'i': return max(1, 1 << (((ty[1] + 7) // 8) - 1).bit_length()) if ty[1] > 8 else 1
        if k == 'f': return 4
        if k == 'd': return 8
        if k == 'h': return 2
        if k == 'x': return 16
        if k == 'p': return 8
        if k == 'v':
            if self.resolve(ty[2])[0] == 'i' and ty[2][1] == 1: return (ty[1] + 7) // 8
            return ty[1] * self.size(ty[2])
        if k == 'a': return ty[1] * self.size(ty[2])
        if k == 's':
            off = 0; al = 1
            for e in ty[1]:
                a = 1 if ty[2] else self.align(e)
                al = max(al, a)
                off = (off + a - 1) // a * a + self.size(e)
            return (off + al - 1) // al * al
        raise SyntaxError("size of %r" % (ty,))
    def align(self, ty):
        ty = self.resolve(ty)
        k = ty[0]
        if k == 'v': return min(64, 1 << (self.size(ty) - 1).bit_length())
        if k == 'a': return self.align(ty[2])
        if k == 's': return 1 if ty[2] else max([self.align(e) for e in ty[1]] or [1])
        return self.size(ty)
    def field_off(self, ty, idx):
        off = 0
        for j, e in enumerate(ty[1]):
            a = 1 if ty[2] else self.align(e)
            off = (off + a - 1) // a * a
            if j == idx: return off
            off += self.size(e)
        raise IndexError


def logical_lines(text):
    """join multi-line constructs (switch tables)"""
    buf = None
    for line in text.split('\n'):
        if buf is not None:
            buf += ' ' + line.strip()
            if line.strip() == ']':
                yield buf; buf = None
            continue
        st = line.strip()
        if st.startswith('switch ') and not st.endswith(']'):
            buf = line; continue
        yield line


def parse(text):
    mod = Module()
    fn = None
    cur = None
    for line in logical_lines(text):
        st = line.strip()
        if not st or st[0] == ';': continue
        if fn is None:
            if st.startswith('source_filename') or st.startswith('target') or st.startswith('attributes') or st.startswith('!'):
                continue
            if st[0] == '%':
                p = P(tokenize(st), mod)
                name = p.next(); p.expect('='); p.expect('type')
                if p.peek() == 'opaque': mod.types[name] = ('s', (), False)
                else: mod.types[name] = p.type()
                continue
            if st[0] == '@':
                p = P(tokenize(st), mod)
                name = p.next(); p.expect('=')
                ext = False
                const = False
                while True:
                    t = p.peek()
                    if t in ('external', 'extern_weak'): ext = True
                    if t in ('constant',): const = True; p.next(); break
                    if t == 'global': p.next(); break
                    if t == 'alias': break
                    p.next()
                    if p.peek() == '(' : p._skip_paren()
                if t == 'alias': continue
                ty = p.type()
                init = None
                if not ext: init = p.value(ty)
                al = 0
                while p.accept(','):
                    if p.accept('align'): al = int(p.next())
                    else: break
                mod.globals[name] = (ty, init, const, al)
                continue
            if st.startswith('declare'):
                p = P(tokenize(re.sub(r'![\w.]+ ![0-9]+ ', '', st)), mod)
                p.next()
                p.skip_attrs()
                rt = p.type()
                mod.decls[p.next()] = rt
                continue
            if st.startswith('define'):
                hdr = st
                p = P(tokenize(st), mod)
                p.next(); p.skip_attrs()
                fn = Fn(); fn.vararg = False; fn.compiled = None
                fn.ret = p.type()
                fn.name = p.next()
                p.expect('(')
                fn.params = []
                if not p.accept(')'):
                    while True:
                        if p.accept('...'): fn.vararg = True; p.expect(')'); break
                        ty = p.type()
                        p.skip_attrs()
                        nm = p.next() if p.kind() == 'loc' else '%%%d' % len(fn.params)
                        fn.params.append((ty, nm))
                        if p.accept(')'): break
                        p.expect(',')
                fn.blocks = {}
                fn.order = []
                cur = None
                continue
            continue
        # inside a function
        if st == '}':
            mod.fns[fn.name] = fn
            fn = None
            continue
        m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', st)
        if m:
            nm = '%' + m.group(1)
            cur = []
            fn.blocks[nm] = cur
            fn.order.append(nm)
            continue
        if cur is None:
            # implicit entry label: number of unnamed params
            nm = '%%%d' % len([1 for _, n in fn.params if re.fullmatch(r'%\d+', n)])
            cur = []
            fn.blocks[nm] = cur
            fn.order.append(nm)
        cur.append(st)
    return mod
