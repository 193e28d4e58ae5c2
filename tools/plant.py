#!/usr/bin/env python3
"""Helper for planted bugs: create (from edits) and verify them in a private copy mounted over /repo.
   plant.py verify [id...]    confirm: demo 0 on clean, build + stable tests pass with the patch, demo nonzero; then run the property's check
   plant.py check ID prop     (internal) """
import os, sys, json, subprocess, shutil, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")

def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

DEMO = '''#!/bin/bash
# builds the demonstration against /repo's sources (own scratch directory) and runs it
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
gcc -std=gnu99 -O1 -fopenmp -w -D_DEFAULT_SOURCE %s -I/repo/src -I/repo/npy_array "$D/demo.c" /repo/src/*.c /repo/npy_array/*.c -o "$T/demo" -lm -lzip -ldl || exit 3
cd "$T" && OMP_NUM_THREADS=%d timeout 120 ./demo
'''

def bug(id, prop, edits, demo=None, needs="", what="", flags="-mavx2 -mfma", threads=4, demo_sh=None, extra=None):
    d = os.path.join(SEEDED, id)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="plant_")
    try:
        sh("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q . && git add -A && git -c user.email=a -c user.name=a commit -qm x" % (t, t))
        for f, old, new in edits:
            p = os.path.join(t, f); s = open(p, encoding="utf-8").read()
            if s.count(old) != 1: raise SystemExit("%s: %d matches of %r in %s" % (id, s.count(old), old[:60], f))
            open(p, "w", encoding="utf-8").write(s.replace(old, new))
        diff = subprocess.run("git diff", shell=True, cwd=t, stdout=subprocess.PIPE).stdout
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
    finally: shutil.rmtree(t, ignore_errors=True)
    if demo: open(os.path.join(d, "demo.c"), "w").write(demo)
    for k, v in (extra or {}).items(): open(os.path.join(d, k), "w").write(v)
    open(os.path.join(d, "demo.sh"), "w").write(demo_sh or DEMO % (flags, threads))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(os.path.join(d, "meta.json"), "w"), indent=1)

def inner(ids, nocheck):
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    def demo(i):
        t = tempfile.mkdtemp(prefix="demo_")
        sh("cp -a %s/. %s/ && rm -f %s/*.diff %s/meta.json" % (os.path.join(SEEDED, i), t, t, t))
        r = sh("bash %s/demo.sh" % t, cwd="/repo"); shutil.rmtree(t)
        return r
    sh("bash /opt/vp/build.sh", cwd="/repo")
    clean = {i: demo(i) for i in ids}
    for i in ids:
        meta = json.load(open(os.path.join(SEEDED, i, "meta.json")))
        out = ["clean-demo=%d" % clean[i].returncode]
        if clean[i].returncode: out.append(clean[i].stdout[-300:])
        r = sh("git -C /repo apply %s" % os.path.join(SEEDED, i, "patch.diff"))
        if r.returncode: print(i, "PATCH DOES NOT APPLY", r.stdout); continue
        sh("bash /opt/vp/test.sh /tmp/plant_out.json", cwd="/repo")
        try: passed = set(json.load(open("/tmp/plant_out.json"))["passed"])
        except Exception: passed = set()
        miss = [x for x in stable if x not in passed]
        out.append("tests=%s" % ("ok" if not miss else "FAIL %d %s" % (len(miss), miss[:2])))
        r = demo(i); out.append("bug-demo=%d" % r.returncode)
        if r.returncode == 3 or not r.returncode: out.append(r.stdout[-300:])
        if not nocheck:
            r = sh("python3 check.py %s" % meta["property"], cwd=ROOT)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=%s " % meta["property"])]
            out.append("check=%d %s" % (r.returncode, "CAUGHT" if r.returncode == 1 and v else "MISSED"))
            out.append("\\n".join(r.stdout.splitlines()[:3])[:420])
        sh("git -C /repo checkout -- .")
        ok = clean[i].returncode == 0 and not miss and demo and "bug-demo=0" not in out
        print(i, meta["property"], "VALID" if ok else "INVALID", *out, flush=True)

if __name__ == "__main__":
    if sys.argv[1] == "verify":
        ids = [a for a in sys.argv[2:] if not a.startswith("-")] or sorted(os.listdir(SEEDED))
        w = tempfile.mkdtemp(prefix="plantrepo_")
        sh("cp -a /repo %s/repo" % w)
        subprocess.run(["unshare", "-m", "bash", "-c", "mount --bind %s/repo /repo && python3 %s inner %s" % (w, os.path.abspath(__file__), " ".join(ids + [a for a in sys.argv[2:] if a.startswith("-")]))])
        shutil.rmtree(w, ignore_errors=True)
    else:
        inner([a for a in sys.argv[2:] if not a.startswith("-")], "--nocheck" in sys.argv)
