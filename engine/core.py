"""Build, run, decide and replay: the driver of the irsym engine."""
import os, sys, json, time, random, subprocess, tempfile, shutil, atexit, hashlib, math, traceback
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
NCPU = os.cpu_count() or 4
HARN = os.path.join(VERIF, "harness")

WORK = tempfile.mkdtemp(prefix="vf_")
_owner = os.getpid()
def _clean():
    if os.getpid() == _owner: shutil.rmtree(WORK, ignore_errors=True)
atexit.register(_clean)

# instruction-set levels the library can be built for
CONFIGS = {
    "avx512":  ["-mavx512f", "-mfma"],
    "avx2":    ["-mavx2", "-mfma"],
    "avx":     ["-mavx"],
    "sse":     [],
    "blas":    ["-mavx2", "-mfma", "-DUSE_CBLAS", "-I" + os.path.join(HARN, "stub", "blas")],
    "blassmall": ["-mavx2", "-mfma", "-DUSE_CBLAS", "-DN_STACK_ALLOC_FLOATS=10", "-I" + os.path.join(HARN, "stub", "blas")],
    "blas512": ["-mavx512f", "-mfma", "-DUSE_CBLAS", "-I" + os.path.join(HARN, "stub", "blas")],
}
NUMERIC_SRC = ["activation", "matrix_operations", "neuralnet", "neuralnet_predict_batch", "loss", "metrics", "evaluate", "optimizer",
               "SGD", "RMSprop", "adagrad", "adam"]
IRFLAGS = ["-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-fno-builtin", "-ffp-contract=off", "-std=gnu99",
           "-fopenmp", "-w", "-fno-strict-aliasing", "-D_DEFAULT_SOURCE", "-fno-discard-value-names", "-fno-pic", "-fno-pie"]
DL = ["-Ddlopen=vf_dlopen", "-Ddlsym=vf_dlsym", "-Ddlclose=vf_dlclose", "-Ddlerror=vf_dlerror"]


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    return r


def src_path(s):
    for d in ("src", "npy_array"):
        p = os.path.join(REPO, d, s + ".c")
        if os.path.exists(p): return p
    raise CheckError("source %s.c not found in /repo" % s)


def all_lib_sources():
    """every C source of the library directory (refactorings may add files)"""
    out = []
    for f in sorted(os.listdir(os.path.join(REPO, "src"))):
        if f.endswith(".c"): out.append(f[:-2])
    return out


def compile_ir(jobs):
    """jobs: list of (out, src, cfg, extra flags)"""
    def one(j):
        out, src, cfg, extra = j
        cmd = ["clang"] + IRFLAGS + DL + CONFIGS[cfg] + extra + ["-I" + os.path.join(HARN, "stub"), "-I" + HARN, "-I" + REPO + "/src", "-I" + REPO + "/npy_array",
               "-S", "-emit-llvm", "-o", out, src]
        r = sh(cmd)
        if r.returncode: raise CheckError("clang failed on %s:\n%s" % (src, r.stderr[:2000]))
    with ThreadPoolExecutor(NCPU) as ex: list(ex.map(one, jobs))


_mods = {}
def prepare(pairs, sources=None, native=True, asan=True, extra_native=()):
    """pairs: set of (harness, cfg).  Builds the linked IR modules and the native binaries."""
    pairs = sorted(set(pairs))
    srcs = sources or all_lib_sources()
    extra_c = {c: ["cblas_ref"] for c in CONFIGS if c.startswith("blas")}
    jobs = []
    for cfg in sorted(set(c for _, c in pairs)):
        d = os.path.join(WORK, "ir_" + cfg); os.makedirs(d, exist_ok=True)
        for s in srcs:
            if s not in ("logger", "progress", "modelcheckpoint", "earlystopping"):
                jobs.append((os.path.join(d, s + ".ll"), src_path(s), cfg, []))
        for e in extra_c.get(cfg, []): jobs.append((os.path.join(d, e + ".ll"), os.path.join(HARN, "stub", e + ".c"), cfg, []))
        for h, c in pairs:
            if c == cfg: jobs.append((os.path.join(d, "H_" + h + ".ll"), os.path.join(HARN, "h_" + h + ".c"), cfg, []))
    compile_ir(jobs)
    from irsym import irparse
    def link(pc):
        h, cfg = pc
        d = os.path.join(WORK, "ir_" + cfg)
        files = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".ll") and not f.startswith("H_") and not f.startswith("L_")]
        out = os.path.join(d, "L_" + h + ".ll")
        r = sh(["llvm-link", "-S", "-o", out, os.path.join(d, "H_" + h + ".ll")] + files)
        if r.returncode: raise CheckError("llvm-link: " + r.stderr[:1500])
        return out
    with ThreadPoolExecutor(NCPU) as ex: outs = list(ex.map(link, pairs))
    natjobs = []
    if native:
        ex = ThreadPoolExecutor(NCPU)
        for h, cfg in pairs: natjobs.append(ex.submit(build_native, h, cfg, srcs, False, extra_c.get(cfg, [])))
    for p, o in zip(pairs, outs): _mods[p] = irparse.parse(open(o).read())
    for j in natjobs: j.result()


def native_exe(h, cfg, asan): return os.path.join(WORK, "nat_%s_%s%s" % (h, cfg, "_asan" if asan else ""))

def build_native(h, cfg, srcs, asan, extra):
    out = native_exe(h, cfg, asan)
    if os.path.exists(out): return out
    cc = ["gcc", "-std=gnu99", "-O2" if not asan else "-O1", "-fopenmp", "-w", "-g", "-rdynamic", "-D_DEFAULT_SOURCE"] + (["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-DVF_ASAN"] if asan else [])
    files = [src_path(s) for s in srcs if s not in ("logger", "progress", "modelcheckpoint", "earlystopping")]
    files += [os.path.join(HARN, "h_" + h + ".c"), os.path.join(HARN, "vf_native.c")] + [os.path.join(REPO, "npy_array", f) for f in sorted(os.listdir(os.path.join(REPO, "npy_array"))) if f.endswith(".c")]
    files += [os.path.join(HARN, "stub", e + ".c") for e in extra]
    tmp = "%s.%d" % (out, os.getpid())
    cmd = cc + DL + ["-Drand=vf_rand"] + CONFIGS[cfg] + ["-I" + HARN] + ["-I" + REPO + "/src", "-I" + REPO + "/npy_array"] + files + ["-lm", "-lzip", "-o", tmp]
    r = sh(cmd)
    if r.returncode: raise CheckError("native build of %s/%s failed:\n%s" % (h, cfg, r.stderr[:2000]))
    os.rename(tmp, out)
    return out


def h01(s):
    h = 17
    for c in s.encode(): h = (h * 31 + c) & 0xffffffff
    return (h % 1000) / 1000.0
class Apps(dict):
    def __missing__(self, name):
        h = h01(name)
        def f(*a):
            if len(a) == 1: return 0.25 + 0.5 * a[0] + 0.3 * math.sin(a[0] + 3 * h) + 0.2 * h
            return 0.1 + 0.5 * a[0] + 0.4 * a[1] + 0.3 * math.sin(a[0] + 2 * a[1] + 3 * h)
        if name == "pow": f = lambda x, y: x ** y if x > 0 else 0.0
        if name == "rcp": f = lambda x: 1 / x
        if name == "rsqrt": f = lambda x: 1 / math.sqrt(x)
        self[name] = f
        return f
APPS = Apps()


def run_native(sc, point, asan=False, timeout=60, threads=2):
    """runs the native build; returns (ok, eqs, chks, rc, stderr)"""
    exe = native_exe(sc["h"], sc["cfg"], asan)
    if asan and not os.path.exists(exe):
        build_native(sc["h"], sc["cfg"], all_lib_sources(), True, ["cblas_ref"] if sc["cfg"].startswith("blas") else [])
    base = os.path.join(WORK, "n%d_%d" % (os.getpid(), random.getrandbits(40)))
    with open(base + ".in", "w") as f:
        for k, v in sc["p"].items():
            if isinstance(v, (int, bool)): f.write("%s %d\n" % (k, v))
        for k, v in (point or {}).items(): f.write("%s %s\n" % (k, float(v).hex()))
    env = dict(os.environ, OMP_NUM_THREADS=str(threads), ASAN_OPTIONS="detect_leaks=0:abort_on_error=0")
    try:
        r = subprocess.run([exe, base + ".in", base + ".out"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env)
        rc, err = r.returncode, r.stderr.decode("latin-1")[-1500:]
    except subprocess.TimeoutExpired:
        rc, err = 124, "timeout"
    eqs, chks, done = {}, [], False
    if os.path.exists(base + ".out"):
        for l in open(base + ".out"):
            t = l.split()
            if not t: continue
            if t[0] == "EQ": eqs[(" ".join(t[1:-3]), int(t[-3]))] = (float.fromhex(t[-2]), float.fromhex(t[-1]))
            elif t[0] == "CHK": chks.append((" ".join(t[1:-1]), int(t[-1])))
            elif t[0] == "DONE": done = True
    for e in (".in", ".out"):
        if os.path.exists(base + e): os.unlink(base + e)
    return done and rc == 0, eqs, chks, rc, err


def f32(x):
    import struct
    return struct.unpack('<f', struct.pack('<f', x))[0]

def rand_point(names, rng, mode=0):
    """assignment for the symbolic inputs; modes vary the scale"""
    out = {}
    sc = [1.0, 0.1, 4.0, 1e-3, 20.0, 1e-6][mode % 6]
    pre = {}
    for n in names:
        s = sc
        if mode >= 6:
            p = n.split('[')[0]
            if p not in pre: pre[p] = rng.choice([1.0, 0.1, 10.0, 1e-3, 1e-5])
            s = pre[p]
        out[n] = f32(rng.uniform(-2, 2) * s)
    return out


def magnitude(v, env, memo):
    from irsym import sem
    if sem.is_const(v): return abs(float(v))
    if not isinstance(v, sem.Poly): return 0.0
    s = 0.0
    for m, c in v.t.items():
        x = abs(float(c))
        for i, e in m: x *= abs(sem.eval_atom(i, env, APPS, memo)) ** e
        s += x
    return s


def run_scenario(sc):
    """symbolic execution of one scenario and the decision of all its assertions (runs in a worker)"""
    t0 = time.time()
    try:
        r = _run_scenario(sc)
    except CheckError as e:
        r = {"status": "error", "msg": str(e)}
    except Exception as e:
        r = {"status": "error", "msg": "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])}
    r["sc"] = sc
    r["time"] = time.time() - t0
    return r


def components(p):
    """the terms of p, grouped into sums without common variables"""
    from irsym import sem
    if sem.is_const(p): return [p]
    memo = {}
    def vs(i):
        if i not in memo: memo[i] = frozenset(j for j in sem.all_atoms(sem.of_atom(sem.ATOMS[i])) if sem.ATOMS[j].kind == "var")
        return memo[i]
    groups = []                                   # (variables, terms)
    for m, c in p.t.items():
        v = frozenset().union(*[vs(i) for i, _ in m]) if m else frozenset()
        hit = [g for g in groups if g[0] & v]
        rest = [g for g in groups if not (g[0] & v)]
        t = {m: c}
        for g in hit: v = v | g[0]; t.update(g[1])
        groups = rest + [(v, t)]
    # constant terms go with the first group
    const = [g for g in groups if not g[0]]
    groups = [g for g in groups if g[0]]
    if const and groups:
        # distribute: a sum of selections may hide its share of the constant; try the whole instead
        return [p]
    return [sem.mk(t) for _, t in groups]


def decide_eq(got, want, conds, timeout, depth=0):
    """is got = want under the conditions?  Case distinction over the if-then-else conditions, canonical forms, solver."""
    from irsym import sem, smt
    if got == want: return "unsat", None, None
    if not sem.is_const(got) and not sem.is_const(want) and smt.same_upto(got, want): return "unsat", None, None
    if depth == 0:
        parts = components(sem.sub(got, want))
        if len(parts) > 1:
            if all(decide_eq(p, 0, conds, timeout, 1)[0] == "unsat" for p in parts): return "unsat", None, None
        kinds = set(sem.ATOMS[i].kind for v in (got, want) for i in sem.all_atoms(v))
        if kinds <= {"var", "ite", "round", "floor"}:
            r = smt.solve(lambda e: [e.cond(x) for x in conds] + [e.poly(got) != e.poly(want)], min(timeout, 8000))
            if r[0] != "unknown": return r
    c = sem.split_cond([got, want]) if depth < 14 else None
    if c is None:
        def q(e): return [e.cond(x) for x in conds] + [e.poly(got) != e.poly(want)]
        return smt.solve(q, timeout)
    for val in (True, False):
        cc = c if val else sem.c_not(c)
        if smt.check_conds(list(conds) + [cc]) == "unsat": continue
        mp = {("c", c.id): val}
        memo = {}
        r = decide_eq(sem.subst(got, mp, memo), sem.subst(want, mp, memo), list(conds) + [cc], timeout, depth + 1)
        if r[0] != "unsat": return r
    return "unsat", None, None


def _run_scenario(sc):
    from irsym import sem, machine, smt, explemma
    lem_memo = {}
    explemma._sm.clear()
    sem.reset()
    for k in smt.STATS: smt.STATS[k] = 0
    mod = _mods[(sc["h"], sc["cfg"])]
    for f in mod.fns.values(): f.compiled = None
    m = machine.Machine(mod, params=dict(sc["p"]))
    m.trace_exp = []
    res = {"status": "ok", "bugs": []}
    rng = random.Random("%s/%d" % (sc["name"], SEED))
    viol = None
    try:
        m.call_fn("@harness", [])
    except machine.Violation as e:
        viol = e
    except machine.Dead:
        raise CheckError("harness ended early")
    except sem.Unsupported as e:
        raise CheckError("cannot encode: %s (in %s)" % (e, " <- ".join(reversed(getattr(e, "where", [])[-6:]))))
    res.update(steps=m.steps, blocks=m.blocks, fns=sorted(f[1:] for f in m.fn_used), obs=len(m.obs), conds=len(m.conds), merges=m.merge_count,
               races=m.user.get("race_checks", 0), race_units=m.user.get("race_units", 0), regions=len(m.user.get("regions", [])), atoms=len(sem.ATOMS))
    names = sorted(m.user.get("syms", {}))
    assume = [c for c in m.user.get("assume", []) if c is not True]
    dom = sc.get("domain")
    def mkpoint(mode=0):
        pt = rand_point(names, rng, mode)
        if dom:
            for n in names:
                pre = n.split('[')[0]
                if pre in dom:
                    d = dom[pre]
                    pt[n] = f32(rng.uniform(*d)) if mode % 2 == 0 or len(d) > 2 else f32(10 ** rng.uniform(math.log10(max(d[0], 1e-9)), math.log10(d[1]))) if d[0] >= 0 else f32(rng.uniform(*d))
        return pt
    def okpoint(pt, conds):
        memo = {}
        try: return all(sem.eval_cond(c, pt, APPS, memo) for c in conds)
        except (OverflowError, ZeroDivisionError, ValueError): return False
    def find_point(conds, tries=200):
        for k in range(tries):
            pt = mkpoint(k % 12 if k else 0)
            if okpoint(pt, conds): return pt
        r, mdl, enc = smt.solve(lambda e: [e.cond(c) for c in conds], 5000)
        if r == "sat":
            pt = smt.model_point(mdl, enc, names)
            return {k: f32(v) for k, v in pt.items()}
        return None

    if viol is not None:
        conds = list(getattr(viol, "pc", [])) + assume
        pt = find_point(conds) if conds or names else mkpoint()
        msg = "%s: %s" % (viol.kind, viol.msg)
        bug = {"kind": viol.kind, "msg": msg, "where": [w[1:] for w in getattr(viol, "where", [])], "point": pt}
        if pt is not None:
            ok, eqs, chks, rc, err = run_native(sc, pt, asan=True)
            bug["native"] = {"rc": rc, "stderr": err[-700:]} if rc else {"rc": 0, "note": "native run did not trap"}
            if viol.kind in ("misaligned",):
                ok, eqs, chks, rc, err = run_native(sc, pt)
                bug["native"] = {"rc": rc, "stderr": err[-300:]}
        res["bugs"].append(bug)
        res["smt"] = dict(smt.STATS)
        return res

    # ---- decide assertions
    if sc.get("memonly"): m.obs, sc = [o for o in m.obs if False], dict(sc, no_native=True)
    same = []
    hard = []
    ap = {}
    for tag, ix, got, want, pc in m.obs:
        if isinstance(got, sem.Special) or isinstance(want, sem.Special):
            if isinstance(got, sem.Special) and isinstance(want, sem.Special) and got.kind == want.kind: same.append((got, got)); continue
            res["bugs"].append({"kind": "value", "msg": "%s[%d] is %r, expected %r" % (tag, ix, got, want), "point": mkpoint(), "native": {}})
            continue
        if got == want: same.append((got, want)); continue
        if sem.is_const(got) and sem.is_const(want):
            if abs(got - want) <= Fraction(1, 500000) * max(abs(got), abs(want)): same.append((want, want)); continue
        elif not sem.is_const(got) and not sem.is_const(want):
            if smt.same_upto(got, want): same.append((want, want)); continue
            a, b = smt.approx(got, 6, ap), smt.approx(want, 6, ap)
            if a == b or smt.same_upto(a, b, 1e-5): same.append((b, b)); continue
        hard.append((tag, ix, got, want, pc))
    # the trivial ones, as one query
    sp = [(g, w) for g, w in same if not sem.is_const(g) and len(g.t) < 4000]
    if sp:
        def b(e):
            import z3
            return [z3.Or([e.poly(g) != e.poly(w) for g, w in sp])]
        r, mdl, enc = smt.solve(b, 60000)
        if r != "unsat": raise CheckError("solver did not confirm equal canonical forms: " + r)
    res["closed"] = len(same)
    res["hard"] = len(hard)
    groups = {}
    for h in hard: groups.setdefault(h[0], []).append(h)
    pend = []
    for tag, hs in groups.items():
        for k, (tag, ix, got, want, pc) in enumerate(hs):
            if k >= 40 and any(x["kind"] == "value" for x in res["bugs"]): break
            conds = list(pc) + assume
            best = None
            for t in range(60):
                pt = mkpoint(t % 18)
                if conds and not okpoint(pt, conds): continue
                try:
                    memo = {}
                    g = sem.evaluate(got, pt, APPS, memo); w = sem.evaluate(want, pt, APPS, memo)
                    tol = 1e-4 * (magnitude(got, pt, memo) + magnitude(want, pt, memo)) + 1e-30
                except (OverflowError, ZeroDivisionError, ValueError): continue
                if g != g or w != w or math.isinf(g) or math.isinf(w) or max(abs(g), abs(w)) > 1e37: continue
                ratio = abs(g - w) / tol
                if best is None or ratio > best[0]: best = (ratio, pt, g, w, tol)
                if t >= 17 and best[0] < 1e-6: break
                if ratio > 100: break
            if best is not None and best[0] > 2:
                # z3 confirms on the concrete point
                pend.append((tag, ix, got, want, best))
                if len(pend) >= 3: break
                continue
            # numerically indistinguishable on samples: the solver decides
            if explemma.has_pow2(got):
                explemma.CACHE = WORK
                info = res.setdefault("exp_lemmas", {})
                try:
                    g2 = explemma.rewrite(got, lem_memo, info)
                except explemma.NoLemma as e:
                    raise CheckError("undecided: %s[%d]: %s" % (tag, ix, e))
                f = explemma.decide_softmax if sc.get("softmax") else explemma.decide
                r = f(g2, want, conds, Fraction(1, 500000), Fraction(1, 1000000), sc.get("timeout", 20000))
                if r == "unsat": continue
                raise CheckError("undecided (vector exponential): %s[%d]: %s\n got  %s\n want %s" % (tag, ix, r, repr(g2)[:600], repr(want)[:600]))
            r, mdl, enc = decide_eq(got, want, conds, sc.get("timeout", 20000))
            if r == "unsat": continue
            if r == "sat":
                pt = {k2: f32(v) for k2, v in smt.model_point(mdl, enc, names).items()}
                try:
                    memo = {}
                    g = sem.evaluate(got, pt, APPS, memo); w = sem.evaluate(want, pt, APPS, memo)
                    tol = 1e-4 * (magnitude(got, pt, memo) + magnitude(want, pt, memo)) + 1e-30
                    if abs(g - w) > 2 * tol: pend.append((tag, ix, got, want, (0, pt, g, w, tol))); continue
                except Exception: pass
            # try the tolerance version: |got - want| <= 1e-5 * (|got|+|want|+1e-30)
            raise CheckError("undecided: %s[%d]: %s\n got  %s\n want %s" % (tag, ix, r, repr(got)[:600], repr(want)[:600]))
        if len(pend) >= 3: break
    for tag, ix, got, want, (ratio, pt, g, w, tol) in pend:
        ok, eqs, chks, rc, err = run_native(sc, pt)
        nv = eqs.get((tag, ix))
        bug = {"kind": "value", "msg": "%s[%d]: code gives %.9g, definition gives %.9g" % (tag, ix, g, w), "point": pt,
               "native": {"rc": rc, "got": nv[0] if nv else None, "expected": w}}
        conf = (nv is not None and not (abs(nv[0] - w) <= tol)) or rc != 0
        bug["confirmed"] = conf
        if conf: res["bugs"].append(bug); break
    else:
        if pend:
            # search again for a point that shows natively
            raise CheckError("difference does not reproduce natively: %s[%d] at %s: sym got %.9g want %.9g native %r (rc %d)" % (tag, ix, str(pt)[:300], g, w, nv, rc))
    # ---- boolean checks
    for tag, c, pc in m.conds:
        if c is True: continue
        conds = list(pc) + assume
        r, mdl, enc = smt.solve(lambda e: [e.cond(x) for x in conds] + [e.cond(sem.c_not(c))], sc.get("timeout", 20000))
        if r == "unsat": continue
        pt = None
        for t in range(200):
            p2 = mkpoint(t % 18)
            if okpoint(p2, conds + [sem.c_not(c)]): pt = p2; break
        if pt is None and r == "sat": pt = {k2: f32(v) for k2, v in smt.model_point(mdl, enc, names).items()}
        if pt is None: raise CheckError("undecided check %s: %s" % (tag, r))
        ok, eqs, chks, rc, err = run_native(sc, pt)
        bad = [x for x in chks if x[0] == tag and not x[1]]
        if bad or rc: res["bugs"].append({"kind": "check", "msg": "check '%s' fails" % tag, "point": pt, "native": {"rc": rc, "failed": len(bad)}, "confirmed": True}); break
        raise CheckError("failing check %s does not reproduce natively at %s" % (tag, str(pt)[:300]))
    # ---- extra obligations of the scenario (python callbacks)
    if sc.get("post"):
        import checks_post
        getattr(checks_post, sc["post"])(m, res, sc)
    # ---- validate the encoding against the native build
    if not res["bugs"] and not sc.get("no_native"):
        nval, misses, k = 0, [], 0
        while nval < sc.get("nval", 1) and k < 6:
            k += 1
            pt = find_point(list(assume), 50) if assume else mkpoint(k - 1)
            if pt is None: raise CheckError("no point satisfies the assumptions (vacuous)")
            ok, eqs, chks, rc, err = run_native(sc, pt)
            if not ok:
                res["bugs"].append({"kind": "native-crash", "msg": "native run ends with code %d: %s" % (rc, err[-300:]), "point": pt, "native": {"rc": rc}, "confirmed": True})
                break
            memo = {}
            bad = None
            for tag, ix, got, want, pc in m.obs:
                nv = eqs.get((tag, ix))
                if nv is None:
                    if pc: continue
                    raise CheckError("native run did not report %s[%d]" % (tag, ix))
                if pc and not okpoint(pt, pc): continue
                try: g = sem.evaluate(got, pt, APPS, memo)
                except (OverflowError, ZeroDivisionError, ValueError): continue
                if not abs(g) < 1e30: continue
                tol = sc.get("ntol", 1e-3) * (abs(g) + magnitude(got, pt, memo)) + sc.get("natol", 1e-5)
                if not abs(nv[0] - g) <= tol: bad = (tag, ix, nv[0], g); break
            if bad:
                # the real code differs from its encoding at this point: rounding (a rare, ill-conditioned point), or a defect that the real numbers hide
                misses.append(bad)
                if len(misses) >= 3:
                    res["bugs"].append({"kind": "native-value", "msg": "%s[%d]: real code gives %.9g, definition gives %.9g" % bad, "point": pt, "native": {"rc": rc}, "confirmed": True})
                    break
                continue
            nval += 1
        res["validated"] = nval
    res["smt"] = dict(smt.STATS)
    return res


_SCS = None
def _work(i): return run_scenario(_SCS[i])

def run_all(scs, budget=None):
    """runs the scenarios on all cores"""
    global _SCS
    import multiprocessing as mp
    _SCS = scs
    out = []
    order = sorted(range(len(scs)), key=lambda i: -scs[i].get("cost", 1))
    if len(scs) == 1 or NCPU == 1: return [_work(i) for i in order]
    ctx = mp.get_context("fork")
    with ctx.Pool(min(NCPU, len(scs)), maxtasksperchild=20) as pool:
        for r in pool.imap_unordered(_work, order, chunksize=1): out.append(r)
    return out


# ------------------------------------------------------------------------------------------------ reporting
def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p): return []
    return json.load(open(p))

def replay_dir():
    d = os.path.join(VERIF, "replays"); os.makedirs(d, exist_ok=True)
    return d

def write_evidence(pid, level, cov, assumptions, t0, viol):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump({"property": pid, "tier": TIER, "seed": SEED, "level": level, "coverage": cov, "assumptions": assumptions,
               "wall_s": round(time.time() - t0, 2), "violations": viol}, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)

def finish_numeric(pid, results, t0, bounds, assumptions):
    errs = [r for r in results if r["status"] == "error"]
    bugs = [(r, b) for r in results for b in r.get("bugs", [])]
    oks = [r for r in results if r["status"] == "ok"]
    tot = lambda k: sum(r.get(k, 0) or 0 for r in oks)
    smt = {}
    for r in oks:
        for k, v in r.get("smt", {}).items(): smt[k] = smt.get(k, 0) + v
    cov = {
        "states": tot("blocks"), "transitions": tot("steps"), "traces_validated_against_impl": tot("validated"),
        "scenarios": len(results), "assertions_decided": tot("obs") + tot("conds"), "closed_by_canonical_form_then_solver": tot("closed"), "decided_by_solver_only": tot("hard"),
        "symbolic_branch_merges": tot("merges"), "solver": {k: (round(v, 3) if isinstance(v, float) else v) for k, v in smt.items()},
        "parallel_regions": tot("regions"), "race_checks": tot("races"), "race_units_compared": tot("race_units"),
        "functions_encoded": sorted(set(f for r in oks for f in r.get("fns", []))),
        "bounds": bounds,
        "exhaustive": False,
        "samples": [{"scenario": r["sc"]["name"], "config": r["sc"]["cfg"], "params": r["sc"]["p"], "instructions": r.get("steps"), "assertions": r.get("obs", 0) + r.get("conds", 0), "seconds": round(r["time"], 2)} for r in oks[:12]],
    }
    write_evidence(pid, "model_checking", cov, assumptions, t0, len(bugs))
    seen = set()
    for r, b in bugs:
        key = (b["kind"], tuple(b.get("where", []))[-1:])
        if key in seen: continue
        seen.add(key)
        path = os.path.join(replay_dir(), "%s_%s.json" % (pid, hashlib.sha1(repr((r["sc"]["name"], b["kind"], b["msg"])).encode()).hexdigest()[:10]))
        json.dump({"property": pid, "scenario": r["sc"], "bug": b}, open(path, "w"), indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("   scenario %s: %s%s" % (r["sc"]["name"], b["msg"][:400], (" in " + " <- ".join(reversed(b["where"][-4:]))) if b.get("where") else ""))
        if b.get("native"): print("   native: %s" % str(b["native"])[:300])
        if len(seen) >= 5: break
    for r in errs[:5]: print("ERROR in scenario %s [%s]: %s" % (r["sc"]["name"], r["sc"]["cfg"], r["msg"][:1500]))
    print("%s: %d scenarios, %d assertions, %d instructions, %d solver queries (%.1fs), %d native traces, %.1fs" % (
        pid, len(results), cov["assertions_decided"], cov["transitions"], smt.get("queries", 0), smt.get("time", 0), cov["traces_validated_against_impl"], time.time() - t0))
    if bugs: return 1
    if errs: return 2
    return 0
