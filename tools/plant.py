#!/usr/bin/env python3
"""Development helper: makes and validates planted bugs under /verif/seeded in a scratch copy of /repo (/tmp/sw).
usage: plant.py SPEC.py [ID...]      SPEC.py calls bug(id, prop, [(file, old, new)], demo_cpp, needs, breaks, flags="")
       plant.py --check ID...        applies each patch to /repo, runs the property's quick check, undoes it"""
import json, os, re, shutil, subprocess, sys
V = "/verif/seeded"; SW = "/tmp/sw"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)
DEMO = '''#!/bin/bash
# builds and runs the demonstration against the library built in the current directory (/repo)
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/tmp"
g++ -std=c++17 -O1 %s -I. -I_build -o "$T/demo" "$D/demo.cpp" _build/tpie/libtpie.a -lsnappy -llz4 -lzstd -lpthread || exit 0
cd "$T" && TMPDIR="$T/tmp" timeout 120 ./demo
'''
def setup():
    if not os.path.isdir(SW): sh(f"cp -a /repo {SW}; rm -rf {SW}/_build")
    sh(f"git -C {SW} checkout -q -- . ; git -C {SW} pull -q /repo HEAD 2>/dev/null || (git -C {SW} fetch -q /repo HEAD && git -C {SW} reset -q --hard FETCH_HEAD)")
    b = open("/opt/vp/build.sh").read().replace("/repo", SW); open("/tmp/sw_build.sh", "w").write(b)
def build(): return sh("bash /tmp/sw_build.sh")
def tests():
    t = open("/opt/vp/test.sh").read().replace("/opt/vp/build.sh", "/tmp/sw_build.sh").replace("/repo", SW); open("/tmp/sw_test.sh", "w").write(t)
    sh("bash /tmp/sw_test.sh /tmp/sw_out.json")
    r = json.load(open("/tmp/sw_out.json")); base = json.load(open("/opt/vp/BASELINE.json"))
    st = set(base.get("stable") or base.get("passed") or base.get("tests") or [])
    return st - set(r["passed"])
bugs = []
def bug(id, prop, edits, demo, needs, breaks, flags=""): bugs.append((id, prop, edits, demo, needs, breaks, flags))
def make(b):
    id, prop, edits, demo, needs, breaks, flags = b; d = f"{V}/{id}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(f"{d}/demo.cpp", "w").write(demo.lstrip("\n")); open(f"{d}/demo.sh", "w").write(DEMO % flags); os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    sh(f"git -C {SW} checkout -q -- .")
    for f, o, n in edits:
        p = f"{SW}/{f}"; s = open(p).read()
        if s.count(o) != 1: print(id, "edit does not match uniquely", f, s.count(o)); return False
        open(p, "w").write(s.replace(o, n))
    open(f"{d}/patch.diff", "w").write(sh(f"git -C {SW} diff").stdout)
    r = build()
    if r.returncode: print(id, "does not build", r.stdout[-1500:]); return False
    miss = tests()
    r = sh(f"bash {d}/demo.sh", cwd=SW); print(id, "patched demo exit", r.returncode, (r.stdout + r.stderr)[-300:].strip(), "| failing tests:", sorted(miss)[:5])
    return r.returncode != 0 and not miss
if __name__ == "__main__":
    if sys.argv[1] == "--check":
        for id in sys.argv[2:]:
            m = json.load(open(f"{V}/{id}/meta.json"))
            r = sh(f"git -C /repo apply {V}/{id}/patch.diff")
            if r.returncode: print(id, "patch does not apply", r.stderr); continue
            try: r = sh(f"python3 /verif/lib/check.py {m['property']} --tier quick")
            finally: sh("git -C /repo checkout -q -- .")
            v = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "  job", "NOTE", "ERROR"))]
            print(id, m["property"], "CAUGHT" if r.returncode == 1 else f"MISSED rc={r.returncode}", "|", " ".join(v[:2])[:300], r.stdout.splitlines()[-1:][0][:120] if r.stdout else r.stderr[-300:])
    else:
        exec(open(sys.argv[1]).read()); setup(); r = build()
        if r.returncode: print(r.stdout[-2000:]); sys.exit(1)
        ok = []; sel = [b for b in bugs if len(sys.argv) < 3 or b[0] in sys.argv[2:]]
        good = []
        # demonstrations on the unchanged tree first
        for b in sel:
            id, flags = b[0], b[6]; d = f"/tmp/sw_demo/{id}"; os.makedirs(d, exist_ok=True); open(f"{d}/demo.cpp", "w").write(b[3].lstrip("\n")); open(f"{d}/demo.sh", "w").write(DEMO.replace("|| exit 0", "|| exit 4") % flags)
            r = sh(f"bash {d}/demo.sh", cwd=SW)
            print(id, "unchanged demo exit", r.returncode, (r.stdout + r.stderr)[-600:].strip() if r.returncode else "")
            if r.returncode == 0: good.append(b)
        for b in good: print(b[0], "VALID" if make(b) else "INVALID", flush=True)
        sh(f"git -C {SW} checkout -q -- .")
