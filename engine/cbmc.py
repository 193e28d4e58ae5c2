"""Bounded model checking of the C sources with cbmc: compile, decide, replay."""
import os, sys, json, time, re, random, subprocess, threading, hashlib
from concurrent.futures import ThreadPoolExecutor
import core
from core import CheckError, WORK, REPO, HARN, sh

CB = os.path.join(HARN, "cbmc")
CPP = ["-std=gnu99", "-w", "-D__NO_CTYPE", "-D_GNU_SOURCE", "-I" + CB, "-I" + REPO + "/src", "-I" + REPO + "/npy_array",
       "-include", os.path.join(CB, "redir.h")]
LIBSETS = {}
NOBODY_OK = re.compile(r"^(omp_\w+|__sync_\w+|_mm_\w+|__builtin_\w+|__errno_location|vf_anyf)$")


def lib_sources():
    out = []
    for d in ("src", "npy_array"):
        p = os.path.join(REPO, d)
        out += [os.path.join(p, f) for f in sorted(os.listdir(p)) if f.endswith(".c")]
    return out


def build_lib(key, defs, native):
    """compiles the library with the given extra flags (per file name: {"": all, "neuralnet": ...})"""
    d = os.path.join(WORK, "cb_%s_%s" % (key, "n" if native else "g")); os.makedirs(d, exist_ok=True)
    def one(src):
        n = os.path.basename(src)[:-2]
        out = os.path.join(d, n + ".o")
        extra = defs.get("", []) + defs.get(n, [])
        if native: cmd = ["gcc", "-g", "-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-builtin"] + CPP + extra + ["-c", src, "-o", out]
        else: cmd = ["goto-cc", "-DVF_CBMC"] + CPP + extra + ["-c", src, "-o", out]
        r = sh(cmd)
        if r.returncode: raise CheckError("compilation of %s failed:\n%s" % (src, (r.stderr or r.stdout)[:2000]))
        return out
    with ThreadPoolExecutor(core.NCPU) as ex: return list(ex.map(one, lib_sources()))


_liblock = threading.Lock()
def lib(sc, native):
    key = sc.get("lib", "std")
    with _liblock:
        if (key, native) not in LIBSETS: LIBSETS[key, native] = build_lib(key, LIBDEFS.get(key, {}), native)
    return LIBSETS[key, native]

STRFUN = ["vf_strcmp", "vf_strncmp", "vf_strlen", "vf_strcpy", "vf_strchr", "vf_format"]
# variants of the library build
LIBDEFS = {"std": {}, "bytes": {"": ["-DVF_BYTECOPY"]}, "avx512align": {"neuralnet": ["-D__AVX512F__", "-D__AVX__"]}, "avxalign": {"neuralnet": ["-D__AVX__"]}}


def defs_of(sc): return ["-D%s=%s" % (k, v) if v is not None else "-D" + k for k, v in sorted(sc.get("defs", {}).items())]

def name_of(sc):
    return sc["h"] + "/" + ",".join("%s=%s" % (k, v) for k, v in sorted(sc.get("defs", {}).items())) + ("/" + sc["lib"] if "lib" in sc else "")

def uid(sc): return hashlib.sha1(name_of(sc).encode()).hexdigest()[:12]


def build_goto(sc):
    base = os.path.join(WORK, "g_" + uid(sc))
    if os.path.exists(base + ".out"): return base + ".out"
    objs = lib(sc, False)
    mine = []
    for f in ("stubs", sc["h"]):
        o = base + "_" + f + ".o"
        r = sh(["goto-cc", "-DVF_CBMC"] + CPP + defs_of(sc) + ["-c", os.path.join(CB, f + ".c"), "-o", o])
        if r.returncode: raise CheckError("compilation of %s failed:\n%s" % (f, (r.stderr or r.stdout)[:2000]))
        mine.append(o)
    if sc.get("stub"):                       # functions the harness replaces
        r = sh(["goto-cc"] + objs + ["-o", base + ".l"])
        if r.returncode: raise CheckError("linking failed:\n" + r.stderr[:1000])
        r = sh(["goto-instrument"] + [x for f in sc["stub"] for x in ("--remove-function-body", f)] + [base + ".l", base + ".l2"])
        if r.returncode: raise CheckError("goto-instrument failed:\n" + (r.stderr or r.stdout)[-1000:])
        os.unlink(base + ".l")
        objs = [base + ".l2"]; mine.append(base + ".l2")
    r = sh(["goto-cc", "--function", "harness"] + mine[:2] + objs + ["-o", base + ".tmp"])
    if r.returncode: raise CheckError("linking %s failed:\n%s" % (name_of(sc), (r.stderr or r.stdout)[:2000]))
    os.rename(base + ".tmp", base + ".out")
    for o in mine: os.unlink(o)
    return base + ".out"


_natlock = threading.Lock()
def build_native(sc):
    out = os.path.join(WORK, "r_" + uid(sc))
    with _natlock:
        if os.path.exists(out): return out
    objs = lib(sc, True)
    cmd = ["gcc", "-g", "-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"] + CPP + defs_of(sc) + \
          [os.path.join(CB, f) for f in ("stubs.c", sc["h"] + ".c", "native.c")] + objs + (["-Wl,--allow-multiple-definition"] if sc.get("stub") else []) + ["-lm", "-o", out + ".tmp"]
    r = sh(cmd)
    if r.returncode: raise CheckError("native build of %s failed:\n%s" % (name_of(sc), r.stderr[:2000]))
    os.rename(out + ".tmp", out)
    return out


def run_native(sc, values, timeout=20):
    exe = build_native(sc)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:detect_stack_use_after_return=1", UBSAN_OPTIONS="print_stacktrace=0")
    try:
        r = subprocess.run([exe] + [hex(v) for v in values], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env)
        return r.returncode, r.stdout.decode("latin-1"), r.stderr.decode("latin-1")
    except subprocess.TimeoutExpired:
        return 124, "", "timeout"


def cbmc(sc, unwind, extra, timeout):
    g = build_goto(sc)
    cmd = ["cbmc", g, "--json-ui", "--verbosity", "8", "--no-standard-checks", "--bounds-check", "--pointer-check", "--div-by-zero-check", "--no-malloc-may-fail",
           "--unwind", str(unwind), "--unwinding-assertions", "--slice-formula", "--object-bits", str(sc.get("objbits", 10)), "--drop-unused-functions"]
    us = dict({k + ".0": sc.get("strlen", 48) for k in STRFUN}, **dict({"vf_format.%d" % k: sc.get("strlen", 48) for k in range(1, 11)}, **sc.get("unwindset", {})))
    if us: cmd += ["--unwindset", ",".join("%s:%d" % (k, v) for k, v in us.items())]
    cmd += sc.get("flags", []) + extra
    t0 = time.time()
    out = g + ".%s.json" % random.getrandbits(32)
    try:
        with open(out, "w") as f:
            r = subprocess.run(["bash", "-c", 'ulimit -v %d; exec "$@"' % (sc.get("mem", 12) << 20), "x"] + cmd, stdout=f, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        os.unlink(out)
        return None, "timeout after %d s" % timeout, time.time() - t0
    try:
        js = json.load(open(out))
    except Exception as e:
        txt = " ".join(re.findall(r'"messageText": "([^"]*)"', open(out).read())[-3:])
        os.unlink(out)
        return None, "no result: rc=%d %s %s" % (r.returncode, r.stderr.decode("latin-1")[-300:], txt), time.time() - t0
    os.unlink(out)
    return js, r.returncode, time.time() - t0


def results_of(js):
    res, info = None, {}
    for m in js:
        if "result" in m: res = m["result"]
        t = m.get("messageText", "")
        x = re.match(r"size of program expression: (\d+) steps", t)
        if x: info["steps"] = int(x.group(1))
        x = re.match(r"(\d+) variables, (\d+) clauses", t)
        if x: info["vars"], info["clauses"] = max(info.get("vars", 0), int(x.group(1))), max(info.get("clauses", 0), int(x.group(2)))
        x = re.match(r"Runtime decision procedure: ([\d.]+)s", t)
        if x: info["solver_s"] = info.get("solver_s", 0) + float(x.group(1))
        x = re.match(r"Generated (\d+) VCC\(s\), (\d+) remaining", t)
        if x: info["vccs"], info["remaining"] = int(x.group(1)), int(x.group(2))
        if m.get("messageType") == "ERROR": info["error"] = t
    return res, info


def get_trace(sc, unwind, prop, timeout):
    js, rc, dt = cbmc(sc, unwind, ["--trace", "--property", prop], timeout)
    if js is None: return None
    res, info = results_of(js)
    for p in res or []:
        if p["property"] == prop and p["status"] == "FAILURE":
            tr = p.get("trace", [])
            vals = []
            for s in tr:
                if s.get("stepType") == "input" and s.get("inputID") == "vf_nd":
                    v = s["values"][0]
                    vals.append(int(v["binary"], 2) if "binary" in v else int(re.sub(r"[ul]+$", "", v["data"])) & (2 ** 64 - 1))
            return vals
    return None


def run_scenario(sc):
    t0 = time.time()
    r = {"name": name_of(sc), "violations": [], "unconfirmed": [], "props": 0, "ok": 0, "reach": 0, "info": {}, "validated": 0}
    try:
        _run(sc, r, time.time() + sc.get("timeout", 600))
    except CheckError as e:
        r["error"] = str(e)
    r["time"] = time.time() - t0
    return r


def _run(sc, r, deadline):
    unwinds = sc.get("unwind", 10)
    if not isinstance(unwinds, (list, tuple)): unwinds = [unwinds, 2 * unwinds]
    res = None
    for u in unwinds:
        js, rc, dt = cbmc(sc, u, [], max(5, deadline - time.time()))
        if js is None:
            if res is None or res == []: r["error"] = rc; return
            break
        res2, info = results_of(js)
        # cbmc 6.11 reports pointer subtraction within a variable-length array as spanning objects: not used
        if res2 is not None: res2 = [p for p in res2 if not p["description"].startswith("same object violation")]
        if res2 is None: r["error"] = "cbmc: %s" % info.get("error", "no result"); return
        res, r["info"], r["unwind"] = res2, info, u
        bad = [p for p in res if p["status"] == "FAILURE" and not p["description"].startswith("REACH ")]
        unw = [p for p in bad if ".unwind." in p["property"] or ".recursion" in p["property"]]
        rest = [p for p in bad if p not in unw]
        if not unw or rest: break
    reach = [p for p in res if p["description"].startswith("REACH ")]
    r["props"] = len([p for p in res if not p["description"].startswith("REACH ") and ".no-body." not in p["property"]])
    r["ok"] = len([p for p in res if p["status"] == "SUCCESS" and not p["description"].startswith("REACH ") and ".no-body." not in p["property"]])
    r["reach"] = len([p for p in reach if p["status"] == "FAILURE"])
    nobody = [p["property"].split(".no-body.")[1] for p in res if ".no-body." in p["property"] and p["status"] == "FAILURE"]
    nobody = [n for n in nobody if not NOBODY_OK.match(n)]
    bad = [p for p in bad if ".no-body." not in p["property"]]
    rest = [p for p in rest if ".no-body." not in p["property"]]
    # counterexamples: the assertions of the harness first
    rest.sort(key=lambda p: (not p["description"].startswith("CHECK "), "model:" in p["description"]))
    tried = 0
    for p in rest + unw:
        if tried >= 4 or time.time() > deadline: break
        tried += 1
        vals = get_trace(sc, r["unwind"], p["property"], max(10, deadline - time.time()))
        if vals is None: continue
        c, out, err = run_native(sc, vals)
        what = p["description"]
        v = {"scenario": r["name"], "assertion": what, "where": "%s:%s" % (p.get("sourceLocation", {}).get("function", "?"), p.get("sourceLocation", {}).get("line", "?")),
             "values": [hex(x) for x in vals], "native_exit": c, "native_output": out[-800:], "native_errors": err[:1500], "sc": {k: sc[k] for k in sc}}
        if c == 124 or (c not in (0, 3) and "FAILED model:" not in out):
            r["violations"].append(v)
            break
        r["unconfirmed"].append(v)
    if r["violations"]: return
    if nobody: r["error"] = "functions without a model are reachable: " + ", ".join(sorted(set(nobody))); return
    if unw: r["error"] = "a loop exceeds the bound of %d iterations: %s" % (r["unwind"], ", ".join(p["property"] for p in unw[:4])); return
    if rest:
        r["error"] = "counterexample not confirmed natively: " + "; ".join("%s at %s" % (v["assertion"], v["where"]) for v in r["unconfirmed"][:3]); return
    # reachability
    miss = [p for p in reach if p["status"] != "FAILURE"]
    if miss and sc.get("may_miss") and all(p["description"][6:] == sc["may_miss"] for p in miss):  # fewer operations than positions: nothing to fail here
        r["unreached"] = 1; return
    if not reach: r["error"] = "no reachability witness in the harness"; return
    if miss:
        if sc.get("reach_is_property"):
            got = set()
            rng = random.Random(core.SEED)
            for k in range(400):
                c, out, err = run_native(sc, [rng.getrandbits(31) for _ in range(40)])
                got |= set(re.findall(r"^REACHED (.*)$", out, re.M))
            names = [p["description"][6:] for p in miss]
            really = [n for n in names if n not in got]
            if really:
                r["violations"].append({"scenario": r["name"], "assertion": "never happens, for any random stream: " + "; ".join(really), "values": [], "where": "harness", "sc": {k: sc[k] for k in sc},
                                        "native_output": "not seen in 400 native runs with different random streams either; seen: " + ", ".join(sorted(got))})
            else: r["error"] = "unreachable for the solver but reached natively: " + ", ".join(names)
        else: r["error"] = "vacuous: not reachable: " + ", ".join(p["description"][6:] for p in miss)
        return
    # one witness is replayed natively: the model and the real code agree that it passes
    if sc.get("validate", True) and time.time() < deadline:
        vals = get_trace(sc, r["unwind"], reach[-1]["property"], max(10, deadline - time.time()))
        if vals is not None:
            c, out, err = run_native(sc, vals)
            if c in (0,): r["validated"] = 1
            elif c != 3: r["error"] = "the native run of a passing state fails (exit %d): %s %s" % (c, out[-300:], err[:600])


def decide(pid, scs, bounds, assumptions, t0):
    jobs = min(core.NCPU, max(1, len(scs)))
    lib_needed = {s.get("lib", "std") for s in scs}
    for k in lib_needed: lib({"lib": k} if k != "std" else {}, False)
    order = sorted(scs, key=lambda s: -s.get("cost", 1))
    found = []
    def one(sc):
        if found: return None          # a confirmed violation settles the check
        r = run_scenario(sc)
        if r["violations"]: found.append(1)
        return r
    with ThreadPoolExecutor(jobs) as ex: res = [r for r in ex.map(one, order) if r is not None]
    viol, errors = [], []
    if scs and all(sc.get("may_miss") for sc in scs) and not found and 2 * sum(r.get("unreached", 0) for r in res) > len(res):
        errors.append("vacuous: most of the failing operations are never reached")
    for r in res:
        viol += r["violations"]
        if "error" in r: errors.append("%s: %s" % (r["name"], r["error"]))
    known = core.load_known() if hasattr(core, "load_known") else {}
    cov = {"states": sum(r["info"].get("steps", 0) for r in res), "transitions": sum(r["info"].get("clauses", 0) for r in res),
           "traces_validated_against_impl": sum(r["validated"] for r in res) + len(viol),
           "meaning": "states: steps of the symbolic execution; transitions: clauses given to the SAT solver; traces validated: witnesses and counterexamples replayed natively",
           "scenarios": len(res), "assertions": sum(r["props"] for r in res), "assertions_holding": sum(r["ok"] for r in res),
           "reachability_witnesses": sum(r["reach"] for r in res), "verification_conditions": sum(r["info"].get("vccs", 0) for r in res),
           "solver_seconds": round(sum(r["info"].get("solver_s", 0) for r in res), 2), "bounds": bounds, "exhaustive": False,
           "undecided": errors, "functions_encoded": functions(scs),
           "samples": [{"scenario": r["name"], "unwind": r.get("unwind"), "assertions": r["props"], "vccs": r["info"].get("vccs"), "clauses": r["info"].get("clauses"), "seconds": round(r["time"], 1)} for r in res[:12]]}
    core.write_evidence(pid, "model_checking", cov, assumptions, t0, len(viol))
    if viol:
        v = viol[0]
        path = os.path.join(core.replay_dir(), "%s_%s.json" % (pid, uid(v["sc"])))
        json.dump({"property": pid, "violations": viol, "how": "gcc -fsanitize=address,undefined of the library, %s/stubs.c, the harness and native.c; the values are its arguments" % CB}, open(path, "w"), indent=1)
        for v in viol[:5]: print("  %s: %s (%s)\n    values %s\n    native: %s %s" % (v["scenario"], v["assertion"], v["where"], " ".join(v["values"][:40]), v["native_output"].strip()[:300], v.get("native_errors", "").strip()[:200]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        for e in errors[:8]: print("UNDECIDED " + e[:1200])
        return 2
    print("%s holds: %d scenarios, %d assertions, %.1f s" % (pid, len(res), cov["assertions"], time.time() - t0))
    return 0


def functions(scs):
    """functions of the library that the harnesses reach"""
    out = set()
    seen = set()
    for s in scs:
        if s["h"] in seen: continue
        seen.add(s["h"])
        try:
            r = sh(["bash", "-c", "goto-instrument --drop-unused-functions %s %s.fn >/dev/null 2>&1; goto-instrument --list-goto-functions %s.fn 2>/dev/null; rm -f %s.fn" % ((build_goto(s),) * 4)], timeout=120)
            for l in r.stdout.splitlines():
                m = re.match(r"^(\w+)(\$link\d+)? /\*", l)
                if m and not m.group(1).startswith(("vf_", "__CPROVER", "nd_")): out.add(m.group(1))
        except Exception: pass
    return sorted(out)
