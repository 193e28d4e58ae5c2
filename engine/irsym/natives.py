"""Models of library functions, OpenMP runtime entry points, compiler intrinsics and the vf_* harness API."""
import math, re, struct, threading
from fractions import Fraction
from . import sem
from .sem import UNDEF, Poly, Cond, Special, Unsupported, is_const
from .machine import (Ptr, VIte, Bits, IntOf, FInt, Violation, Dead, as_float, to_cond, merge_vals, vite, sx, bits_of, int_bits_to_float, Frame)

F = ('f',)
I8, I32, I64, PT = ('i', 8), ('i', 32), ('i', 64), ('p',)


def fl(v):
    v = as_float(v)
    return v


# ------------------------------------------------------------------------------------------------ math
def m_exp(m, x):
    x = fl(x)
    if m.trace_exp is not None and x is not UNDEF and not m.user.get('reference'): m.trace_exp.append((tuple(m.pc), x))
    return sem.f_exp(x)

def m_tanh(m, x): return sem.f_tanh(fl(x))
def m_log(m, x): return sem.f_log(fl(x))
def m_pow(m, x, y):
    x, y = fl(x), fl(y)
    if is_const(y) and Fraction(y).denominator == 1 and abs(y) <= 4096:
        n = int(y)
        r = 1
        for _ in range(abs(n)): r = sem.mul(r, x)
        return r if n >= 0 else sem.div(1, r)
    if is_const(y) and Fraction(y) == Fraction(1, 2): return sem.f_sqrt(x)
    if is_const(x) and x == 2: return sem.f_exp(sem.mul(y, sem.of_atom(sem.atom("log", "", (2,)))))
    return sem.of_atom(sem.atom("app", "pow", (x, y)))

def un(kind):
    def f(m, x):
        x = fl(x)
        if x is UNDEF: return x
        if is_const(x):
            q = Fraction(x)
            if kind == "round": return int(math.copysign(math.floor(abs(q) + Fraction(1, 2)), q))
            if kind == "rint": return round(q)
            if kind == "floor": return q.__floor__()
            if kind == "ceil": return q.__ceil__()
            if kind == "trunc": return q.__trunc__()
        return sem.f_unary(kind, x)
    return f

def m_floor(m, x): return sem.f_floor(fl(x))

def m_copysign(m, x, y):
    a = sem.f_abs(fl(x)); y = fl(y)
    if is_const(y): return a if y >= 0 else sem.neg(a)
    return sem.ite(sem.c_lt0(y), sem.neg(a), a)

MATH1 = {
    "sqrt": lambda m, x: sem.f_sqrt(fl(x)), "exp": m_exp, "log": m_log, "tanh": m_tanh,
    "fabs": lambda m, x: sem.f_abs(fl(x)), "floor": m_floor, "ceil": un("ceil"), "round": un("round"),
    "rint": un("rint"), "nearbyint": un("rint"), "trunc": lambda m, x: sem.f_trunc(fl(x)), "roundeven": un("rint"),
    "log1p": lambda m, x: sem.f_log(sem.add(1, fl(x))), "expm1": lambda m, x: sem.sub(m_exp(m, x), 1),
    "exp2": lambda m, x: sem.f_exp(sem.mul(fl(x), sem.of_atom(sem.atom("log", "", (2,))))),
    "cosh": lambda m, x: sem.mul(Fraction(1, 2), sem.add(m_exp(m, x), m_exp(m, sem.neg(fl(x))))),
    "sinh": lambda m, x: sem.mul(Fraction(1, 2), sem.sub(m_exp(m, x), m_exp(m, sem.neg(fl(x))))),
}
MATH2 = {
    "fmax": lambda m, x, y: sem.f_max(fl(x), fl(y)), "fmin": lambda m, x, y: sem.f_min(fl(x), fl(y)),
    "pow": m_pow, "copysign": m_copysign,
}


# ---------------------------------------------------------------------------------------------- OpenMP
class Team:
    def __init__(self, n): self.n = n; self.single = {}; self.disp = {}; self.count = {}


def omp_fork(m, args, tys):
    fn = args[2]
    rest = args[3:]
    if m.user.get("in_parallel"):
        return omp_run_team(m, fn, rest, 1)
    n = m.user.get("omp_next") or m.params.get("threads", 1)
    m.user["omp_next"] = None
    if n == 0: n = 1
    m.user["in_parallel"] = True
    try:
        return omp_run_team(m, fn, rest, n)
    finally:
        m.user["in_parallel"] = False


def has_barrier(m, name, seen=None):
    seen = seen if seen is not None else set()
    if name in seen: return False
    seen.add(name)
    f = m.mod.fns.get(name)
    if not f: return False
    for ls in f.blocks.values():
        for l in ls:
            if '__kmpc_barrier' in l or '__kmpc_reduce(' in l: return True
            for g in re.findall(r'@[\w.$]+', l):
                if g in m.mod.fns and has_barrier(m, g, seen): return True
    return False


def omp_run_team(m, fn, rest, n):
    from . import machine
    team = Team(n)
    outer = m.user.get("team"), m.user.get("tid")
    outer_race = m.race
    fork_seq = m.seq
    m.user["team"] = team
    logs = []
    order = list(range(n))
    if m.params.get("rev_threads"): order.reverse()
    m.user.setdefault("regions", []).append((fn.obj.fn, n))

    def newlog(): return {"seq": fork_seq, "shared": set(), "r": set(), "w": set(), "lr": set(), "lw": set(), "lock": 0}

    def start(t, gt, bt):
        m.user["tid"] = t

    def one(t):
        gt = m.new_obj("gtid", 4, 4, "stack"); gt.cells[0] = (t, 4, 'i')
        bt = m.new_obj("btid", 4, 4, "stack"); bt.cells[0] = (t, 4, 'i')
        m.call_ptr(fn, [Ptr(gt, 0), Ptr(bt, 0)] + list(rest), None)

    if n == 1 or not has_barrier(m, fn.obj.fn):
        for t in order:
            log = newlog() if n > 1 else None
            if log is not None: m.race = log; logs.append([(t, log)])
            m.user["tid"] = t
            one(t)
        if n > 1:
            check_races(m, [x[0] for x in logs])
    else:
        if m.journal: raise Unsupported("barrier under a symbolic branch")
        # coroutine threads switching at barriers
        sems = {t: threading.Semaphore(0) for t in order}
        main = threading.Semaphore(0)
        state = {t: {"done": False, "exc": None, "log": newlog(), "cs": list(m.callstack)} for t in order}
        def body(t):
            sems[t].acquire()
            try:
                m.user["tid"] = t; m.race = state[t]["log"]; m.callstack = state[t]["cs"]
                one(t)
            except BaseException as e:
                state[t]["exc"] = e
            state[t]["done"] = True
            main.release()
        def barrier(t):
            state[t]["cs"] = m.callstack
            main.release()
            sems[t].acquire()
            m.user["tid"] = t; m.race = state[t]["log"]; m.callstack = state[t]["cs"]
        m.user["barrier"] = barrier
        old = threading.stack_size(256 * 1024 * 1024)
        ths = [threading.Thread(target=body, args=(t,), daemon=True) for t in order]
        for th in ths: th.start()
        threading.stack_size(old)
        cs = m.callstack
        while True:
            alive = [t for t in order if not state[t]["done"]]
            if not alive: break
            for t in alive:
                state[t]["log"] = newlog()
                sems[t].release()
                main.acquire()
                if state[t]["exc"] is not None:
                    m.callstack = cs; m.race = outer_race
                    raise state[t]["exc"]
            m.callstack = cs
            check_races(m, [(t, state[t]["log"]) for t in alive])
        m.user["barrier"] = None
    m.race = outer_race
    m.user["team"], m.user["tid"] = outer
    return None


def check_races(m, logs):
    allw, allr, lw, lr = {}, {}, {}, {}
    m.user["race_checks"] = m.user.get("race_checks", 0) + 1
    for t, log in logs:
        for u in log["w"] | log["lw"]:
            o = allw.setdefault(u, set())
            o.add((t, u in log["w"]))
        for u in log["r"] | log["lr"]:
            allr.setdefault(u, set()).add((t, u in log["r"]))
    for u, ws in allw.items():
        m.user["race_units"] = m.user.get("race_units", 0) + 1
        acc = [(t, unl, 'write') for t, unl in ws] + [(t, unl, 'read') for t, unl in allr.get(u, ())]
        for t, unl, _ in acc:
            for t2, unl2, k2 in acc:
                if t2 != t and (unl or unl2) and (_ == 'write' or k2 == 'write'):
                    raise Violation("data-race", "threads %d and %d access %s+%d without synchronisation, one of them writes" % (t, t2, u[0].name, 4 * u[1]))


def ld(m, p, ty): return m.load(p, ty, 1)
def st(m, p, ty, v):
    r = m.race; m.race = None
    try: m.store(p, ty, v, 1)
    finally: m.race = r

def static_init(bits):
    ty = ('i', bits)
    def f(m, a, tys):
        sched, plast, plo, pup, pst, incr, chunk = a[2], a[3], a[4], a[5], a[6], sx(a[7], bits), a[8]
        sched &= 0xffff
        team = m.user.get("team"); tid = m.user.get("tid") or 0
        n = team.n if team else 1
        M = (1 << bits) - 1
        lo, up = sx(ld(m, plo, ty), bits), sx(ld(m, pup, ty), bits)
        trip = (up - lo) // incr + 1
        if sched in (33, 45):           # static chunked
            c = chunk
            st(m, plo, ty, (lo + tid * c * incr) & M)
            st(m, pup, ty, (lo + tid * c * incr + c * incr - (1 if incr > 0 else -1)) & M)
            st(m, pst, ty, (c * n * incr) & M)
            st(m, plast, I32, 1 if trip > 0 and tid == ((trip - 1) // c) % n else 0)
            return
        if trip <= 0:
            st(m, plo, ty, (up + incr) & M); st(m, plast, I32, 0); return
        q, r = divmod(trip, n)
        if m.params.get("split_tail"):          # remainder to the last threads
            cnt = [q] * (n - r) + [q + 1] * r
        else: cnt = [q + 1] * r + [q] * (n - r)
        s = sum(cnt[:tid])
        c = cnt[tid]
        st(m, plo, ty, (lo + s * incr) & M)
        st(m, pup, ty, (lo + (s + c - 1) * incr) & M)
        st(m, pst, ty, (trip * incr) & M)
        st(m, plast, I32, 1 if c and s + c == trip else 0)
    return f

def disp_init(bits):
    def f(m, a, tys):
        team = m.user["team"] or Team(1); tid = m.user.get("tid") or 0
        lo, up, stp, chunk = sx(a[3], bits), sx(a[4], bits), sx(a[5], bits), sx(a[6], bits)
        n = team.n
        chunk = max(1, chunk)
        trip = max(0, (up - lo) // stp + 1)
        mine = []
        k = 0
        for s in range(0, trip, chunk):
            if k % n == tid: mine.append((lo + s * stp, lo + (min(s + chunk, trip) - 1) * stp, s + chunk >= trip))
            k += 1
        team.disp[tid] = (mine, stp)
    return f

def disp_next(bits):
    ty = ('i', bits); M = (1 << bits) - 1
    def f(m, a, tys):
        team = m.user["team"]; tid = m.user.get("tid") or 0
        mine, stp = team.disp[tid]
        if not mine: return 0
        lo, up, last = mine.pop(0)
        st(m, a[2], I32, 1 if last else 0); st(m, a[3], ty, lo & M); st(m, a[4], ty, up & M); st(m, a[5], ty, stp & M)
        return 1
    return f

def lock_on(m):
    if m.race is not None: m.race["lock"] += 1
def lock_off(m):
    if m.race is not None: m.race["lock"] -= 1

def omp_barrier(m, a, tys):
    b = m.user.get("barrier")
    team = m.user.get("team")
    if b and team and team.n > 1: b(m.user["tid"])
    return 0

def omp_reduce(m, a, tys):
    if m.user.get("team") and m.params.get("reduce_mode", 1) == 2:
        return 2
    lock_on(m)
    m.user["red_lock"] = m.user.get("red_lock", 0) + 1
    return 1

def omp_end_reduce(m, a, tys):
    lock_off(m)

def omp_single(m, a, tys):
    team = m.user.get("team"); tid = m.user.get("tid") or 0
    if not team or team.n == 1: return 1
    k = team.count.get(tid, 0); team.count[tid] = k + 1
    if k not in team.single: team.single[k] = tid
    return 1 if team.single[k] == tid else 0


# ---------------------------------------------------------------------------------------------- formatting
def fmt(m, f, args):
    """concrete printf formatting; args: list of (value, type)"""
    out = bytearray()
    i = 0
    args = list(args)
    n = len(f)
    while i < n:
        ch = f[i]
        if ch != 37: out.append(ch); i += 1; continue
        mm = re.match(rb'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t|L)?([a-zA-Z%])', f[i:])
        if not mm: raise Unsupported("format %r" % f)
        i += mm.end()
        fl_, w, pr, ln, cv = mm.groups()
        if cv == b'%': out.append(37); continue
        def nxt():
            if not args: raise Violation("format", "printf-style call with too few arguments")
            return args.pop(0)
        if w == b'*': w = str(sx(nxt()[0], 32)).encode()
        if pr == b'*': pr = str(sx(nxt()[0], 32)).encode()
        v = nxt()[0]
        spec = '%' + fl_.decode() + (w.decode() if w else '') + ('.' + pr.decode() if pr is not None else '')
        c = cv.decode()
        if c in 'di':
            if v.__class__ is not int: raise Unsupported("symbolic value printed")
            out += (spec + 'd').encode().replace(b'%', b'%') and ((spec + 'd') % sx(v, 64 if ln in (b'l', b'll', b'z', b'j', b't') else 32)).encode()
        elif c in 'uxX':
            if v.__class__ is not int: raise Unsupported("symbolic value printed")
            v &= (1 << (64 if ln in (b'l', b'll', b'z', b'j', b't') else 32)) - 1
            out += ((spec + ('d' if c == 'u' else c)) % v).encode()
        elif c == 'c': out.append(v & 255)
        elif c == 's':
            s = m.read_cstr(v).decode('latin-1')
            out += (spec + 's') .__mod__(s).encode('latin-1')
        elif c in 'fFeEgG':
            v = fl(v)
            if not is_const(v): out += b'<float>'
            else: out += ((spec + c) % float(v)).encode()
        elif c == 'p': out += b'0x1'
        else: raise Unsupported("format %r" % f)
    return bytes(out)


# ---------------------------------------------------------------------------------------------- install
def install(m):
    N = m.natives
    def reg(name, f): N['@' + name] = f

    for k, f in MATH1.items():
        for suf in ('', 'f', 'l'):
            reg(k + suf, (lambda f: lambda m, a, tys=None: f(m, a[0]))(f))
    for k, f in MATH2.items():
        for suf in ('', 'f', 'l'):
            reg(k + suf, (lambda f: lambda m, a, tys=None: f(m, a[0], a[1]))(f))
    reg('abs', lambda m, a, tys=None: abs(sx(a[0], 32)))

    # memory
    reg('malloc', lambda m, a, tys=None: m.malloc(a[0]))
    reg('calloc', lambda m, a, tys=None: m.malloc(a[0] * a[1], zero=True))
    reg('free', lambda m, a, tys=None: m.free(a[0]))
    def realloc(m, a, tys=None):
        p, n = a
        q = m.malloc(n)
        if isinstance(p, Ptr):
            if p.obj.kind != "heap" or p.off or p.obj.freed: raise Violation("invalid-free", "realloc of %r" % (p,))
            m.memcpy(q, p, min(n, p.obj.size)); m.free(p)
        return q
    reg('realloc', realloc)
    def posix_memalign(m, a, tys=None):
        al, n = a[1], a[2]
        if al < 8 or al & (al - 1): return 22
        m.store(a[0], PT, m.malloc(n, al))
        return 0
    reg('posix_memalign', posix_memalign)
    reg('aligned_alloc', lambda m, a, tys=None: m.malloc(a[1], a[0]))
    reg('memalign', lambda m, a, tys=None: m.malloc(a[1], a[0]))
    reg('_mm_malloc', lambda m, a, tys=None: m.malloc(a[0], a[1]))
    reg('_mm_free', lambda m, a, tys=None: m.free(a[0]))
    def memcpy(m, a, tys=None): m.memcpy(a[0], a[1], a[2]); return a[0]
    reg('memcpy', memcpy); reg('memmove', memcpy)
    def memset(m, a, tys=None): m.memset(a[0], a[1], a[2]); return a[0]
    reg('memset', memset)
    def memcmp(m, a, tys=None):
        x, y = m.read_bytes(a[0], a[2]), m.read_bytes(a[1], a[2])
        if any(b.__class__ is not int for b in x + y): raise Unsupported("symbolic memcmp")
        return 0 if x == y else (1 if x > y else (1 << 32) - 1)
    reg('memcmp', memcmp)
    # strings
    s_ = lambda m, p: m.read_cstr(p)
    reg('strlen', lambda m, a, tys=None: len(s_(m, a[0])))
    def cmpb(x, y): return 0 if x == y else (1 if x > y else (1 << 32) - 1)
    reg('strcmp', lambda m, a, tys=None: cmpb(s_(m, a[0]), s_(m, a[1])))
    reg('strncmp', lambda m, a, tys=None: cmpb(s_(m, a[0])[:a[2]], s_(m, a[1])[:a[2]]))
    def strchr(m, a, tys=None):
        s = s_(m, a[0])
        c = a[1] & 255
        i = len(s) if c == 0 else s.find(bytes([c]))
        return 0 if i < 0 else Ptr(a[0].obj, a[0].off + i)
    reg('strchr', strchr)
    def strrchr(m, a, tys=None):
        s = s_(m, a[0]); i = s.rfind(bytes([a[1] & 255]))
        return 0 if i < 0 else Ptr(a[0].obj, a[0].off + i)
    reg('strrchr', strrchr)
    def strstr(m, a, tys=None):
        i = s_(m, a[0]).find(s_(m, a[1]))
        return 0 if i < 0 else Ptr(a[0].obj, a[0].off + i)
    reg('strstr', strstr)
    def strcpy(m, a, tys=None): m.write_bytes(a[0], s_(m, a[1]) + b'\0'); return a[0]
    reg('strcpy', strcpy)
    def strncpy(m, a, tys=None):
        s = s_(m, a[1])[:a[2]]; m.write_bytes(a[0], s + b'\0' * (a[2] - len(s))); return a[0]
    reg('strncpy', strncpy)
    def strcat(m, a, tys=None):
        k = len(s_(m, a[0])); m.write_bytes(Ptr(a[0].obj, a[0].off + k), s_(m, a[1]) + b'\0'); return a[0]
    reg('strcat', strcat)
    def strdup(m, a, tys=None):
        s = s_(m, a[0]); p = m.malloc(len(s) + 1); m.write_bytes(p, s + b'\0'); return p
    reg('strdup', strdup); reg('__strdup', strdup)
    def strndup(m, a, tys=None):
        s = s_(m, a[0])[:a[1]]; p = m.malloc(len(s) + 1); m.write_bytes(p, s + b'\0'); return p
    reg('strndup', strndup)
    reg('strspn', lambda m, a, tys=None: next((i for i, c in enumerate(s_(m, a[0])) if c not in s_(m, a[1])), len(s_(m, a[0]))))
    reg('strcspn', lambda m, a, tys=None: next((i for i, c in enumerate(s_(m, a[0])) if c in s_(m, a[1])), len(s_(m, a[0]))))
    # output: no effect
    for nm in "printf fprintf puts putchar fputs fputc putc perror fflush fwrite vfprintf vprintf setbuf".split():
        reg(nm, lambda m, a, tys=None: 0)
    def snprintf(m, a, tys=None):
        b = fmt(m, s_(m, a[2]), [(v, None) for v in a[3:]])
        n = a[1]
        if n: m.write_bytes(a[0], b[:n - 1] + b'\0')
        return len(b)
    reg('snprintf', snprintf)
    def sprintf(m, a, tys=None):
        b = fmt(m, s_(m, a[1]), [(v, None) for v in a[2:]])
        m.write_bytes(a[0], b + b'\0')
        return len(b)
    reg('sprintf', sprintf)
    # misc
    def rnd(m, a, tys=None):
        o = m.user.setdefault("rand_obj", None) or m.user.__setitem__("rand_obj", m.new_obj("rand() state", 4, 4, "global")) or m.user["rand_obj"]
        o.seq = 0
        if m.race is not None: m.log_access(o, 0, 4, True)
        k = m.user.get("rand_n", 0); m.user["rand_n"] = k + 1
        return m.user.get("rand_fn", lambda k: (1103515245 * (k + 12345) >> 3) & 0x7fffffff)(k)
    reg('rand', rnd)
    reg('srand', lambda m, a, tys=None: None)
    reg('time', lambda m, a, tys=None: 1234567)
    reg('omp_get_wtime', lambda m, a, tys=None: 0)
    reg('clock', lambda m, a, tys=None: 0)
    reg('atexit', lambda m, a, tys=None: m.user.setdefault("atexit", []).append(a[0]) or 0)
    reg('isatty', lambda m, a, tys=None: 0)
    reg('__errno_location', lambda m, a, tys=None: m.user.setdefault("errno", m.malloc(4, zero=True)))
    def assert_fail(m, a, tys=None):
        raise Violation("assertion", "assert(%s) failed" % m.read_cstr(a[0]).decode('latin-1'))
    reg('__assert_fail', assert_fail)
    def abort(m, a, tys=None): raise Violation("abort", "abort() called")
    reg('abort', abort)
    def exit_(m, a, tys=None): raise Violation("exit", "exit(%s) called" % a[0])
    reg('exit', exit_); reg('_exit', exit_)

    # OpenMP
    reg('__kmpc_fork_call', omp_fork)
    reg('__kmpc_push_num_threads', lambda m, a, tys=None: m.user.__setitem__("omp_next", min(a[2], m.params.get("threads", 1))))
    for b, s in ((32, '4'), (32, '4u'), (64, '8'), (64, '8u')):
        reg('__kmpc_for_static_init_' + s, static_init(b))
        reg('__kmpc_dispatch_init_' + s, disp_init(b))
        reg('__kmpc_dispatch_next_' + s, disp_next(b))
        reg('__kmpc_dispatch_fini_' + s, lambda m, a, tys=None: None)
    reg('__kmpc_for_static_fini', lambda m, a, tys=None: None)
    reg('__kmpc_dispatch_deinit', lambda m, a, tys=None: None)
    reg('__kmpc_barrier', omp_barrier)
    reg('__kmpc_reduce_nowait', omp_reduce); reg('__kmpc_reduce', omp_reduce)
    reg('__kmpc_end_reduce_nowait', omp_end_reduce)
    def end_reduce(m, a, tys=None):
        omp_end_reduce(m, a, tys); omp_barrier(m, a, tys)
    reg('__kmpc_end_reduce', end_reduce)
    reg('__kmpc_critical', lambda m, a, tys=None: lock_on(m)); reg('__kmpc_end_critical', lambda m, a, tys=None: lock_off(m))
    reg('__kmpc_single', omp_single); reg('__kmpc_end_single', lambda m, a, tys=None: None)
    reg('__kmpc_master', lambda m, a, tys=None: 1 if (m.user.get("tid") or 0) == 0 else 0); reg('__kmpc_end_master', lambda m, a, tys=None: None)
    reg('__kmpc_masked', N['@__kmpc_master']); reg('__kmpc_end_masked', lambda m, a, tys=None: None)
    reg('__kmpc_global_thread_num', lambda m, a, tys=None: m.user.get("tid") or 0)
    reg('__kmpc_serialized_parallel', lambda m, a, tys=None: None); reg('__kmpc_end_serialized_parallel', lambda m, a, tys=None: None)
    reg('__kmpc_flush', lambda m, a, tys=None: None)
    reg('omp_get_thread_num', lambda m, a, tys=None: m.user.get("tid") or 0)
    reg('omp_get_num_threads', lambda m, a, tys=None: m.user["team"].n if m.user.get("team") else 1)
    reg('omp_get_max_threads', lambda m, a, tys=None: m.params.get("threads", 1))
    reg('omp_get_num_procs', lambda m, a, tys=None: m.params.get("threads", 1))
    reg('omp_in_parallel', lambda m, a, tys=None: 1 if m.user.get("in_parallel") and m.user["team"] and m.user["team"].n > 1 else 0)
    reg('omp_set_num_threads', lambda m, a, tys=None: None)

    # harness API
    def vf_param(m, a, tys=None):
        k = m.read_cstr(a[0]).decode()
        v = m.params.get(k)
        if v is None: v = sx(a[1], 32)
        m.user.setdefault("params_used", {})[k] = v
        return v & 0xffffffff
    reg('vf_param', vf_param)
    def vf_sym(m, a, tys=None):
        n = "%s[%d]" % (m.read_cstr(a[0]).decode(), sx(a[1], 32))
        pt = m.params.get("_point")
        m.user.setdefault("syms", {})[n] = True
        if pt is not None: return pt[n]
        return sem.var(n)
    reg('vf_sym', vf_sym)
    def vf_uf(m, a, tys=None):
        return sem.f_app(m.read_cstr(a[0]).decode(), [fl(x) for x in a[1:]])
    reg('vf_uf', vf_uf); reg('vf_uf2', vf_uf)
    def vf_alloc(m, a, tys=None):
        n, mis = a[0], a[1]
        o = m.new_obj("vf_alloc#%d" % (m.seq + 1), n, 64, "heap", mis)
        m.heap.append(o)
        return Ptr(o, 0)
    reg('vf_alloc', vf_alloc)
    def vf_free(m, a, tys=None): m.free(a[0])
    reg('vf_free', vf_free)
    def vf_check_eq(m, a, tys=None):
        tag = m.read_cstr(a[0]).decode()
        got, want = fl(a[2]), fl(a[3])
        if want is UNDEF: raise Unsupported("reference value is uninitialised (%s)" % tag)
        if got is UNDEF: raise Violation("uninitialised", "result %s[%d] is an uninitialised value" % (tag, sx(a[1], 32)))
        m.obs.append((tag, sx(a[1], 32), got, want, tuple(m.pc)))
    reg('vf_check_eq', vf_check_eq)
    def vf_check(m, a, tys=None):
        tag = m.read_cstr(a[0]).decode()
        c = to_cond(a[1] if a[1].__class__ is not int else bool(a[1]))
        if c is UNDEF: raise Violation("uninitialised", "check %s depends on an uninitialised value" % tag)
        m.conds.append((tag, c, tuple(m.pc)))
        if c is False and not m.pc: raise Violation("check", tag)
    reg('vf_check', vf_check)
    def vf_assume(m, a, tys=None):
        c = to_cond(a[0] if a[0].__class__ is not int else bool(a[0]))
        if len(m.pc) > m.base_pc: raise Unsupported("vf_assume under a symbolic branch")
        m.user.setdefault("assume", []).append(c)
        if c is not True and c is not False: m.pc.append(c); m.base_pc += 1
    reg('vf_assume', vf_assume)
    def vf_fresh_race(m, a, tys=None): pass
    reg('vf_mark', lambda m, a, tys=None: m.user.__setitem__(m.read_cstr(a[0]).decode(), m.steps))
    def vf_snapshot_begin(m, a, tys=None):
        """log every write until vf_writes_end"""
        m.user["wlog"] = m.race
        m.race = {"seq": m.seq, "shared": set(), "r": set(), "w": set(), "lr": set(), "lw": set(), "lock": 0}
    def vf_heap_leaks(m, a, tys=None):
        return sum(1 for o in m.heap if not o.freed and o.seq > 0)
    reg('vf_heap_live', vf_heap_leaks)
    def vf_readonly(m, a, tys=None):
        if a[0].__class__ is Ptr: a[0].obj.const = bool(a[1])
    reg('vf_readonly', vf_readonly)


# ---------------------------------------------------------------------------------------------- intrinsics
CMP_IMM = ["oeq", "olt", "ole", "uno", "une", "uge", "ugt", "ord", "ueq", "ult", "ule", "false", "one", "oge", "ogt", "true",
           "oeq", "olt", "ole", "uno", "une", "uge", "ugt", "ord", "ueq", "ult", "ule", "false", "one", "oge", "ogt", "true"]

def rnd_imm(imm, x):
    k = imm & 7
    if k & 4: k = 0
    if is_const(x):
        q = Fraction(x)
        return [round(q), q.__floor__(), q.__ceil__(), q.__trunc__()][k]
    if x is UNDEF: return x
    if k == 1: return sem.f_floor(x)
    if k == 0: return sem.f_unary("rint", x)
    if k == 2: return sem.f_unary("ceil", x)
    return sem.f_trunc(x)

def x86max(a, b):
    a, b = as_float(a), as_float(b)
    return sem.f_max(a, b)
def x86min(a, b):
    return sem.f_min(as_float(a), as_float(b))

def sign_cond(v):
    """sign bit of a lane (float or int)"""
    if v.__class__ is int: return bool(v >> 31 & 1)
    if v is UNDEF: return UNDEF
    if v.__class__ is VIte: return sem.c_ite(v.c, sign_cond(v.a), sign_cond(v.b))
    if v.__class__ is Bits: return sign_cond(v.v)
    if v.__class__ is FInt: return sign_cond(v.v)
    if isinstance(v, Special): return v.kind == "-inf" or v.kind == "nan" and True
    if is_const(v): return v < 0
    return sem.c_lt0(v)

def to_i32_trunc(x):
    if is_const(x): 
        q = int(Fraction(x).__trunc__())
        return q & 0xffffffff if -2**31 <= q < 2**31 else 0x80000000
    if x is UNDEF: return x
    return IntOf(sem.f_trunc(x))

def to_i32_round(x):
    if is_const(x): return round(Fraction(x)) & 0xffffffff
    if x is UNDEF: return x
    return IntOf(sem.f_unary("rint", x))

def intrinsic(m, name, tys, rty):
    n = name[6:]
    base = n.split('.')[0]
    vec = rty[0] == 'v'
    def lanes(f):
        if vec: return lambda fr, *a: [f(*x) for x in zip(*a)]
        return lambda fr, *a: f(*a)
    if base in ('lifetime', 'assume', 'dbg', 'prefetch', 'donothing', 'experimental', 'invariant', 'annotation', 'sideeffect', 'var'): 
        return None
    if base == 'expect': return lambda fr, v, e: v
    if base == 'stacksave': return lambda fr: len(fr.allocas)
    if base == 'stackrestore':
        def f(fr, k):
            for o in fr.allocas[k:]: o.freed = True
            del fr.allocas[k:]
        return f
    if base in ('memcpy', 'memmove'): return lambda fr, d, s, k, v: m.memcpy(d, s, k)
    if base == 'memset': return lambda fr, d, b, k, v: m.memset(d, b, k)
    if base in ('fma', 'fmuladd'):
        return lanes(lambda a, b, c: sem.add(sem.mul(as_float(a), as_float(b)), as_float(c)))
    if base in ('sqrt', 'exp', 'log', 'floor', 'ceil', 'round', 'rint', 'nearbyint', 'trunc', 'fabs', 'roundeven', 'exp2'):
        f1 = MATH1[base]
        return lanes(lambda a: f1(m, a))
    if base in ('maxnum', 'maximum'): return lanes(x86max)
    if base in ('minnum', 'minimum'): return lanes(x86min)
    if base == 'copysign': return lanes(lambda a, b: m_copysign(m, a, b))
    if base in ('smax', 'smin', 'umax', 'umin'):
        bits = (rty[2] if vec else rty)[1]
        from .machine import map_int
        s = base[0] == 's'; mx = base.endswith('max')
        def g(a, b):
            def h(x, y):
                kx, ky = (sx(x, bits), sx(y, bits)) if s else (x, y)
                return (x if kx > ky else y) if mx else (x if kx < ky else y)
            if (a.__class__ is IntOf or b.__class__ is IntOf):
                P = lambda v: v.p if v.__class__ is IntOf else sx(v, bits)
                if (a.__class__ is not IntOf or a.sh == 0) and (b.__class__ is not IntOf or b.sh == 0):
                    return IntOf((sem.f_max if mx else sem.f_min)(P(a), P(b)))
            return map_int(h, a, b)
        return lanes(g)
    if base == 'abs':
        bits = (rty[2] if vec else rty)[1]
        from .machine import map_int
        if vec: return lambda fr, a, p: [map_int(lambda x: abs(sx(x, bits)) & ((1 << bits) - 1), v) for v in a]
        return lambda fr, a, p: map_int(lambda x: abs(sx(x, bits)) & ((1 << bits) - 1), a)
    if base in ('ctpop', 'cttz', 'ctlz', 'bswap'):
        bits = rty[1]
        def g(fr, a, *r):
            if a.__class__ is not int: raise Unsupported(base + " of a symbolic value")
            if base == 'ctpop': return bin(a).count('1')
            if base == 'cttz': return (a & -a).bit_length() - 1 if a else bits
            if base == 'ctlz': return bits - a.bit_length()
            return int.from_bytes(a.to_bytes(bits // 8, 'little'), 'big')
        return g
    if base in ('umul', 'smul', 'uadd', 'sadd', 'usub', 'ssub') and 'with.overflow' in n:
        bits = tys[0][1]; s = base[0] == 's'; op = base[1:]
        def g(fr, a, b):
            if s: a, b = sx(a, bits), sx(b, bits)
            r = a * b if op == 'mul' else a + b if op == 'add' else a - b
            lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if s else (0, (1 << bits) - 1)
            return [r & ((1 << bits) - 1), not lo <= r <= hi]
        return g
    if base in ('usub', 'uadd') and '.sat.' in n:
        bits = rty[1]
        return lambda fr, a, b: max(0, a - b) if base == 'usub' else min((1 << bits) - 1, a + b)
    if base == 'vector':
        k = n.split('.')[2]
        if k == 'fadd': return lambda fr, s, v: red(sem.add, [as_float(s)] + [as_float(x) for x in v])
        if k == 'fmul': return lambda fr, s, v: red(sem.mul, [as_float(s)] + [as_float(x) for x in v])
        if k == 'fmax': return lambda fr, v: red(x86max, v)
        if k == 'fmin': return lambda fr, v: red(x86min, v)
        if k in ('add', 'or', 'and', 'xor', 'mul'):
            from .compile import ival
            bits = rty[1]
            return lambda fr, v: red(lambda a, b: ival(a, b, k, bits), v)
    if base == 'masked':
        k = n.split('.')[1]
        if k == 'load':
            def g(fr, p, al, mask, pas):
                out = []
                es = m.mod.size(rty[2])
                if mask.__class__ is not list: raise Unsupported("mask")
                for i, c in enumerate(mask):
                    c = to_cond(c)
                    if c is True: out.append(m.load(Ptr(p.obj, p.off + i * es), rty[2], min(al, es)))
                    elif c is False: out.append(pas[i])
                    else: raise Unsupported("symbolic mask")
                return out
            return g
        if k == 'store':
            ety = tys[0][2]
            def g(fr, v, p, al, mask):
                es = m.mod.size(ety)
                for i, c in enumerate(mask):
                    c = to_cond(c)
                    if c is True: m.store(Ptr(p.obj, p.off + i * es), ety, v[i], min(al, es))
                    elif c is not False: raise Unsupported("symbolic mask")
            return g
    if base == 'va_start':
        def g(fr, ap):
            if fr.varargs is None: raise Unsupported("va_start")
            o = m.new_obj("varargs", 8 * len(fr.varargs), 16, "stack")
            for i, v in enumerate(fr.varargs):
                kind = 'd' if is_const(v) and not isinstance(v, int) or isinstance(v, Poly) else 'p' if isinstance(v, Ptr) else 'i'
                vt = fr.vartys[i] if fr.vartys else None
                if vt is not None and vt[0] == 'd': kind = 'd'
                o.cells[8 * i] = (v, 8, kind)
            fr.allocas.append(o)
            m.store(ap, I32, 48); m.store(Ptr(ap.obj, ap.off + 4), I32, 176)
            m.store(Ptr(ap.obj, ap.off + 8), PT, Ptr(o, 0)); m.store(Ptr(ap.obj, ap.off + 16), PT, 0)
        return g
    if base == 'va_end': return lambda fr, ap: None
    if base == 'va_copy': return lambda fr, d, s: m.memcpy(d, s, 24)
    if base == 'is' and 'fpclass' in n:
        def g(fr, v, k):
            v = as_float(v)
            isnan = isinstance(v, Special) and v.kind == 'nan'
            isinf = isinstance(v, Special) and v.kind != 'nan'
            r = False
            if k & 3 and isnan: r = True
            if k & 0x204 and isinf: r = True
            if k & 0x1f8 and not isnan and not isinf: r = True
            return r
        return g
    if base == 'is' and 'constant' in n: return lambda fr, v: False
    if base == 'objectsize': return lambda fr, *a: (1 << 64) - 1
    if base == 'trap': 
        def g(fr): raise Violation("trap", "llvm.trap reached")
        return g
    if base == 'x86': return x86(m, n[4:], tys, rty)
    raise Unsupported("intrinsic " + name)

def red(f, xs):
    r = xs[0]
    for x in xs[1:]: r = f(r, x)
    return r

def x86(m, n, tys, rty):
    if re.match(r'(sse|avx|avx512)\.(max|min)\.ps', n):
        f = x86max if '.max.' in n else x86min
        return lambda fr, a, b, *r: [f(x, y) for x, y in zip(a, b)]
    if re.match(r'sse\.(max|min)\.ss', n):
        f = x86max if '.max.' in n else x86min
        return lambda fr, a, b: [f(a[0], b[0])] + list(a[1:])
    if re.match(r'(sse41|avx)\.round\.ps', n):
        return lambda fr, a, imm: [rnd_imm(imm, as_float(x)) for x in a]
    if re.match(r'sse41\.round\.ss', n):
        return lambda fr, a, b, imm: [rnd_imm(imm, as_float(b[0]))] + list(a[1:])
    if n.startswith('avx512.mask.rndscale.ps'):
        def g(fr, a, imm, src, mask, *r):
            if imm >> 4: raise Unsupported("rndscale")
            return [rnd_imm(imm, as_float(x)) if mask >> i & 1 else src[i] for i, x in enumerate(a)]
        return g
    if n in ('avx.cvtt.ps2dq.256', 'sse2.cvttps2dq'): return lambda fr, a: [to_i32_trunc(as_float(x)) for x in a]
    if n in ('avx.cvt.ps2dq.256', 'sse2.cvtps2dq'): return lambda fr, a: [to_i32_round(as_float(x)) for x in a]
    if n.startswith('avx512.mask.cvttps2dq'): return lambda fr, a, s, k, *r: [to_i32_trunc(as_float(x)) if k >> i & 1 else s[i] for i, x in enumerate(a)]
    if n.startswith('avx512.mask.cvtps2dq'): return lambda fr, a, s, k, *r: [to_i32_round(as_float(x)) if k >> i & 1 else s[i] for i, x in enumerate(a)]
    if n in ('sse.cvttss2si', 'sse.cvttss2si64'): return lambda fr, a: to_i32_trunc(as_float(a[0]))
    if n in ('sse.cvtss2si', 'sse.cvtss2si64'): return lambda fr, a: to_i32_round(as_float(a[0]))
    if n == 'sse3.hadd.ps': return lambda fr, a, b: [sem.add(a[0], a[1]), sem.add(a[2], a[3]), sem.add(b[0], b[1]), sem.add(b[2], b[3])]
    if n == 'avx.hadd.ps.256':
        return lambda fr, a, b: [sem.add(a[0], a[1]), sem.add(a[2], a[3]), sem.add(b[0], b[1]), sem.add(b[2], b[3]),
                                 sem.add(a[4], a[5]), sem.add(a[6], a[7]), sem.add(b[4], b[5]), sem.add(b[6], b[7])]
    if n in ('sse41.dpps', 'avx.dp.ps.256'):
        def g(fr, a, b, imm):
            out = []
            for h in range(0, len(a), 4):
                s = 0
                for i in range(4):
                    if imm >> (4 + i) & 1: s = sem.add(s, sem.mul(a[h + i], b[h + i]))
                out += [s if imm >> i & 1 else 0 for i in range(4)]
            return out
        return g
    if n in ('sse.cmp.ps', 'avx.cmp.ps.256'):
        def g(fr, a, b, imm):
            out = []
            for x, y in zip(a, b):
                c = sem.cmp_float(CMP_IMM[imm], as_float(x), as_float(y))
                if c is UNDEF: out.append(UNDEF)
                else: out.append(FInt(0xffffffff, 4) if c is True else 0 if c is False else FInt(VIte(c, 0xffffffff, 0), 4))
            return out
        return g
    if n.startswith('avx512.mask.cmp.ps'):
        return lambda fr, a, b, imm, mask, *r: [sem.c_and(to_cond(k), sem.cmp_float(CMP_IMM[imm], as_float(x), as_float(y))) for x, y, k in zip(a, b, mask)]
    if n in ('sse41.blendvps', 'avx.blendv.ps.256'):
        def g(fr, a, b, k):
            out = []
            for x, y, c in zip(a, b, k):
                c = sign_cond(c)
                out.append(UNDEF if c is UNDEF else merge_vals(c, y, x, True) if c is not True and c is not False else y if c else x)
            return out
        return g
    if n in ('sse.movmsk.ps', 'avx.movmsk.ps.256'):
        def g(fr, a):
            from .compile import ival
            acc = 0
            for i, x in enumerate(a):
                c = sign_cond(x)
                if c is UNDEF: return UNDEF
                acc = ival(acc, vite(c, 1 << i, 0) if c is not True and c is not False else (1 << i if c else 0), 'or', 32)
            return acc
        return g
    if n in ('avx.maskload.ps', 'avx.maskload.ps.256', 'avx2.maskload.d', 'avx2.maskload.d.256'):
        def g(fr, p, k):
            out = []
            for i, c in enumerate(k):
                c = sign_cond(c)
                if c is True: out.append(m.load(Ptr(p.obj, p.off + 4 * i), rty[2], 1))
                elif c is False: out.append(0)
                else: raise Unsupported("symbolic mask")
            return out
        return g
    if n in ('avx.maskstore.ps', 'avx.maskstore.ps.256'):
        def g(fr, p, k, v):
            for i, c in enumerate(k):
                c = sign_cond(c)
                if c is True: m.store(Ptr(p.obj, p.off + 4 * i), ('f',), v[i], 1)
                elif c is not False: raise Unsupported("symbolic mask")
        return g
    if n in ('sse.rcp.ps', 'avx.rcp.ps.256'): return lambda fr, a: [sem.f_app("rcp", [x]) for x in a]
    if n in ('sse.rsqrt.ps', 'avx.rsqrt.ps.256'): return lambda fr, a: [sem.f_app("rsqrt", [x]) for x in a]
    if n in ('avx.vzeroupper', 'avx.vzeroall', 'sse2.pause', 'sse.sfence', 'sse2.mfence'): return None
    if n.startswith('avx512.vfmadd.ps') or n.startswith('avx512.vfmadd'):
        return lambda fr, a, b, c, *r: [sem.add(sem.mul(x, y), z) for x, y, z in zip(a, b, c)]
    if n.startswith('avx512.') and '.ps.512' in n:
        k = n.split('.')[1]
        f = {'add': sem.add, 'sub': sem.sub, 'mul': sem.mul, 'div': sem.div}.get(k)
        if f: return lambda fr, a, b, *r: [f(x, y) for x, y in zip(a, b)]
        if k == 'sqrt': return lambda fr, a, *r: [sem.f_sqrt(x) for x in a]
    raise Unsupported("intrinsic llvm.x86." + n)
