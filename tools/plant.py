#!/usr/bin/env python3
"""plant.py BUGS.py [ID ...]: confirms planted bugs (applies to /repo, builds, tests, demo fails; clean tree: demo passes),
stores them in seeded/ and reports whether the quick check of the property notices them. /repo is restored afterwards."""
import json, os, subprocess, sys, time
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
DEMO = '''#!/bin/bash
# Exit 0 if the property holds for the demonstrated input.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -w -I/repo/include -I/repo/include/tsym -I/repo/src "$d/demo.cpp" -L/repo/_build/unit/src -ltsym -Wl,-rpath,/repo/_build/unit/src -o "$t/demo" || exit 2
@RUN@ "$t/demo"
'''
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def restore():
    sh(f"git -C {REPO} checkout -- .")
def build():
    return sh("bash /opt/vp/build.sh").returncode == 0
def main():
    bugs = {}
    exec(open(sys.argv[1]).read(), {"bugs": bugs})
    ids = sys.argv[2:] or list(bugs)
    assert sh(f"git -C {REPO} status --porcelain").stdout == "", "dirty repo"
    for i in ids:
        b = bugs[i]
        d = os.path.join(here, "seeded", i)
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.cpp", "w").write(b["demo"])
        open(d + "/demo.sh", "w").write(DEMO.replace("@RUN@", b.get("run", "timeout 60")))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        try:
            for f, old, new in b["edits"]:
                p = os.path.join(REPO, f)
                s = open(p).read()
                assert s.count(old) == 1, (i, f, s.count(old))
                open(p, "w").write(s.replace(old, new))
            open(d + "/patch.diff", "w").write(sh(f"git -C {REPO} diff").stdout)
            ok = build()
            r = sh("timeout 100 /repo/_build/unit/unit-tests/tests 2>&1 | tail -40", timeout=300)
            tests = "No errors" in r.stdout
            demo = sh(f"bash {d}/demo.sh", timeout=300)
            verdict = f"{i}: build={'ok' if ok else 'FAILED'} tests={'pass' if tests else 'FAIL'} demo={demo.returncode}"
            if ok and tests and demo.returncode not in (0, 2):
                t = time.time()
                c = sh(f"VERIF_SEED={os.environ.get('VERIF_SEED', '1')} bash {here}/check.sh {b['property']} quick", timeout=900)
                caught = c.returncode == 1 and f"VIOLATION property={b['property']}" in c.stdout
                verdict += f" check={'CAUGHT' if caught else 'missed rc=%d' % c.returncode} {time.time() - t:.0f}s"
                open(f"/tmp/plant-{i}.log", "w").write(c.stdout + c.stderr)
            else:
                verdict += "\n" + (r.stdout[-1500:] if not tests else "") + demo.stdout[-300:] + demo.stderr[-500:]
        finally:
            restore()
        print(verdict, flush=True)
    build()
    for i in ids:
        r = sh(f"bash {here}/seeded/{i}/demo.sh", timeout=300)
        if r.returncode != 0:
            print(f"{i}: demo on the unchanged tree: {r.returncode} {r.stdout[-300:]} {r.stderr[-300:]}")
main()
