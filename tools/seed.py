#!/usr/bin/env python3
"""seed.py SPEC.py [--recheck]: plants changes in a scratch copy (/tmp/seedw) and keeps the confirmed ones in seeded/.
SPEC.py defines SEEDS = [dict(id, property, needs, what_it_breaks, edits=[(file, old, new), ...], demo=str)].
Confirms: builds, stable tests pass, demo 0 without / nonzero with the change; then runs the property's check."""
import json, os, re, subprocess, sys, runpy
W = "/tmp/seedw"
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **kw)
def ensure():
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    if not os.path.exists(W):
        sh(f"cp -a /repo {W}")
    sh(f"git -C {W} checkout -q -- . && git -C {W} fetch -q /repo HEAD && git -C {W} reset -q --hard FETCH_HEAD")
    assert sh(f"git -C {W} rev-parse HEAD").stdout.strip() == head
def scripts():
    for n in ("build", "test"):
        t = open(f"/opt/vp/{n}.sh").read().replace("/repo/", W + "/").replace("/opt/vp/build.sh", "/tmp/seedw-build.sh")
        open(f"/tmp/seedw-{n}.sh", "w").write(t)
def build(): return sh("bash /tmp/seedw-build.sh")
def tests_ok():
    sh("bash /tmp/seedw-test.sh /tmp/seedw-out.json")
    r = json.load(open("/tmp/seedw-out.json")); base = json.load(open("/opt/vp/BASELINE.json"))
    need = base["stable"]
    got = {t.split("seedw/", 1)[-1] for t in r["passed"]}
    miss = [t for t in need if t not in got]
    return miss
def check(pid):
    r = sh(f"VERIF_REPO={W} VERIF_TIER=quick VERIF_SEED=1 node run.mjs {pid}", cwd=ROOT)
    return r.returncode, [l for l in r.stdout.splitlines() if "VIOLATION" in l or "ERROR" in l][:2]
def main():
    spec = runpy.run_path(sys.argv[1]); only = sys.argv[2:]
    ensure(); scripts(); build()
    for s in spec["SEEDS"]:
        if only and s["id"] not in only: continue
        sh(f"git -C {W} checkout -q -- .")
        d = f"/tmp/seeds/{s['id']}"; os.makedirs(d, exist_ok=True)
        open(d + "/demo.sh", "w").write(s.get("sh") or '#!/bin/bash\nexec node --no-warnings "$(cd "$(dirname "$0")" && pwd)/demo.mjs"\n')
        open(d + "/demo.mjs", "w").write(s["demo"].lstrip())
        lib = any(e[0].startswith("lib/") for e in s["edits"])
        if lib: build()
        r0 = sh(f"bash {d}/demo.sh", cwd=W)
        bad = False
        for f, old, new in s["edits"]:
            p = f"{W}/{f}"; t = open(p).read()
            if t.count(old) != 1: print(s["id"], "EDIT MATCHES", t.count(old), f, old[:60]); bad = True; break
            open(p, "w").write(t.replace(old, new))
        if bad: continue
        patch = sh(f"git -C {W} diff").stdout
        b = build() if lib else None
        if b is not None and b.returncode: print(s["id"], "BUILD FAILS", b.stdout[-400:]); continue
        r1 = sh(f"bash {d}/demo.sh", cwd=W)
        if r0.returncode != 0 or r1.returncode == 0:
            print(s["id"], "DEMO", r0.returncode, r1.returncode, (r0.stdout + r0.stderr)[-600:], "||", (r1.stdout + r1.stderr)[-300:]); continue
        miss = tests_ok() if lib else []
        if miss: print(s["id"], "TESTS FAIL", miss[:3]); continue
        rc, lines = check(s["property"])
        out = f"{ROOT}/seeded/{s['id']}"; os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(patch)
        for n in ("demo.sh", "demo.mjs"): open(f"{out}/{n}", "w").write(open(f"{d}/{n}").read())
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what_it_breaks"]}, open(out + "/meta.json", "w"), indent=1)
        print(s["id"], "KEPT;", "caught" if rc == 1 else f"MISSED rc={rc}", lines[:1], flush=True)
    sh(f"git -C {W} checkout -q -- .")
main()
