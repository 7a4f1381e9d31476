#!/usr/bin/env python3
"""plant.py NAME...: makes seeded/NAME from tools/bugs/NAME.py and confirms it in /repo.

A bug file defines FILE, OLD, NEW (or EDITS = [(file, old, new), ...]), PROPERTY,
NEEDS, BREAKS and DEMO (body of a C++ program, see HEAD below)."""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
HEAD = open(f"{V}/tools/bugs/head.inc").read()
DEMO_SH = r'''#!/bin/bash
# Builds demo.cpp against the libraries in ./_build and runs it.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'find "$t" -delete' EXIT
g++ -std=c++17 -w -UNDEBUG -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS \
  -D__STDC_LIMIT_MACROS -Iinclude -I/usr/lib/llvm-14/include -I/usr/include/libxml2 \
  INCLUDE"$d/demo.cpp" EXTRA_build/lib/Solver/libVaRASolver.a _build/lib/Configuration/libVaRAConfiguration.a \
  _build/lib/Feature/libVaRAFeature.a -L/usr/lib/llvm-14/lib -Wl,-rpath,/usr/lib/llvm-14/lib \
  -lLLVM-14 -lxml2 -lz3 -lstdc++fs -o "$t/demo" || exit 4
cd "$t" && timeout 120 ./demo
'''
DEMO_PY = r'''#!/bin/bash
# Runs demo.py with the module in ./_build; freed memory is overwritten.
d=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD/_build/bindings/python/vara-feature" PYTHONDONTWRITEBYTECODE=1
export MALLOC_PERTURB_=165
timeout 120 /usr/bin/python3 "$d/demo.py"
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, cwd=R, capture_output=True, text=True, **k)
def revert():
    sh("git checkout -- .")
def main(name, fast):
    d = f"{V}/seeded/{name}"
    g = {}
    exec(open(f"{V}/tools/bugs/{name}.py").read(), g)
    edits = g.get("EDITS") or [(g["FILE"], g["OLD"], g["NEW"])]
    if sh("git status --porcelain").stdout.strip():
        sys.exit("/repo is not clean")
    os.makedirs(d, exist_ok=True)
    extra = g.get("SOURCES", "")
    if "PY" in g:
        open(f"{d}/demo.sh", "w").write(DEMO_PY)
        open(f"{d}/demo.py", "w").write(g["PY"].lstrip())
    elif "DEMO_SH" in g:
        open(f"{d}/demo.sh", "w").write(g["DEMO_SH"])
    else:
        open(f"{d}/demo.sh", "w").write(DEMO_SH.replace("EXTRA", extra + " " if extra else "").replace("INCLUDE", g["INCLUDE"] + " " if "INCLUDE" in g else ""))
        open(f"{d}/demo.cpp", "w").write(HEAD + g["DEMO"])
    for f in g.get("FILES", []):
        open(f"{d}/{os.path.basename(f)}", "w").write(open(f"{V}/{f}").read())
    json.dump(dict(property=g["PROPERTY"], needs=g["NEEDS"], what_it_breaks=g["BREAKS"]),
              open(f"{d}/meta.json", "w"), indent=1)
    base = json.load(open("/opt/vp/BASELINE.json"))
    try:
        clean = sh(f"bash {d}/demo.sh")
        if clean.returncode != 0:
            print(name, "BAD: demo fails on the clean tree", clean.returncode, clean.stdout[-800:], clean.stderr[-1500:]); return
        for f, o, n in edits:
            t = open(f"{R}/{f}").read()
            if t.count(o) != 1:
                print(name, "BAD: text occurs", t.count(o), "times"); return
            # removed lines have to be those of the original repository
            b = sh(f"git show cbd69df:{f}").stdout
            for l in o.splitlines():
                if l.strip() and l not in n.splitlines() and l not in b.splitlines():
                    print(name, "note: changed line is not original:", l)
            open(f"{R}/{f}", "w").write(t.replace(o, n))
        open(f"{d}/patch.diff", "w").write(sh("git diff").stdout)
        t = sh("bash /opt/vp/test.sh /tmp/plant.json")
        r = json.load(open("/tmp/plant.json"))
        if r["failed"] or len(r["passed"]) < 339:
            print(name, "BAD: tests", len(r["passed"]), r["failed"][:5], t.stderr[-800:], t.stdout[-600:]); return
        buggy = sh(f"bash {d}/demo.sh")
        if buggy.returncode in (0, 3, 4):
            print(name, "BAD: demo with the bug:", buggy.returncode, buggy.stderr[-500:]); return
        print(name, "counts; demo:", buggy.returncode, buggy.stdout.strip()[-200:])
        if not fast:
            c = subprocess.run(["bash", f"{V}/check.sh", g["PROPERTY"]], cwd=V, capture_output=True, text=True)
            l = [x for x in c.stdout.splitlines() if x.startswith("VIOLATION")]
            print("   check:", c.returncode, l[:1], "MISSED" if c.returncode != 1 or not l else "caught")
    finally:
        revert()
        sh("bash /opt/vp/build.sh")
for n in [a for a in sys.argv[1:] if not a.startswith("-")]:
    main(n, "--fast" in sys.argv)
