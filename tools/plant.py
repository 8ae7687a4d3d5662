#!/usr/bin/env python3
"""plant.py FILE.py...: each file defines ID, PROP, NEEDS, BREAKS, EDITS=[(path, old, new)], DEMO (C++ main) ;
confirms in a scratch copy that the change builds, passes the tests and makes the demo fail; writes seeded/<ID>/"""
import os, subprocess, sys, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# compiles demo.cpp against /repo's sources (with the JSON reader beside it) and runs it
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -r -- "$t"' EXIT
f="-std=gnu++17 -O0 -w -include cstdint -include limits -I$d/shim -I/repo/include -I/repo/src %s"
for s in %s; do g++ -x c++ $f -c "/repo/$s" -o "$t/$(basename "$s").o" & done
g++ $f -c "$d/demo.cpp" -o "$t/demo.o" & 
wait
g++ "$t"/*.o -o "$t/demo" || exit 99
cd "$t" && ulimit -c 0 && timeout 60 ./demo
'''
LIBS = "src/abieos.cpp src/abi.cpp src/crypto.cpp include/eosio/fpconv.c"
PRE = '#include "abieos.hpp"\n#include "eosio/abieos.h"\n#include <cstdio>\n#include <cstdlib>\n#include <string>\n#include <vector>\nusing namespace eosio;\n#define CHECK(x) do { if (!(x)) { std::printf("demo: line %d: %s\\n", __LINE__, #x); std::exit(1); } } while (0)\n'
def run(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def plant(path):
    g = {}
    exec(open(path).read(), g)
    w = tempfile.mkdtemp(prefix="plant_")
    try:
        run("git -C /repo archive HEAD | tar -x -C %s" % w)
        run("git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", cwd=w)
        for f, old, new in g["EDITS"]:
            s = open(w + "/" + f).read()
            if s.count(old) != 1: return "edit of %s matches %d times" % (f, s.count(old))
            open(w + "/" + f, "w").write(s.replace(old, new))
        diff = run("git diff", cwd=w).stdout
        base = run("git -C /repo diff fad7902 HEAD").stdout
        added = {l[1:].strip() for l in base.split("\n") if l.startswith("+") and not l.startswith("+++")}
        for l in diff.split("\n"):
            if l.startswith("-") and not l.startswith("---") and l[1:].strip() in added and len(l.strip()) > 3: print("  note: changes a line of a fix:", l)
        d = V + "/seeded/" + g["ID"]
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(diff)
        shutil.copytree(V + "/shim", d + "/shim")
        open(d + "/demo.cpp", "w").write(PRE + g["DEMO"])
        sh = DEMO_SH % (g.get("FLAGS", ""), g.get("LIBS", LIBS))
        open(d + "/demo.sh", "w").write(sh); os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
        # the demo on both trees
        r = run("bash %s/demo.sh" % d)
        if r.returncode != 0: return "demo fails on the clean tree: " + (r.stdout + r.stderr)[-1500:]
        t2 = tempfile.mkdtemp(prefix="plant_demo_")
        shutil.copytree(d, t2 + "/x"); p = t2 + "/x/demo.sh"
        s = open(p).read().replace("/repo/", w + "/"); open(p, "w").write(s)
        r = run("bash " + p); shutil.rmtree(t2)
        if r.returncode in (0, 99): return "demo does not notice the change (rc %d): %s" % (r.returncode, (r.stdout + r.stderr)[-1500:])
        msg = "demo: " + (r.stdout.strip() + " rc=%d" % r.returncode)[-120:]
        r = run('cmake -S . -B _b -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DSKIP_SUBMODULE_CHECK=1 "-DCMAKE_CXX_FLAGS=-Wno-error -include cstdint -include limits" -DCMAKE_C_FLAGS=-Wno-error && ninja -C _b test_abieos_reflect CMakeFiles/abieos.dir/include/eosio/fpconv.c.o tools/CMakeFiles/name.dir/name.cpp.o && ctest --test-dir _b -R "^test_abieos_reflect$"',
                cwd=w, env=dict(os.environ, CC="gcc", CXX="g++"))
        if r.returncode: return "build or tests fail: " + (r.stdout + r.stderr)[-1500:]
        return "ok " + msg
    finally: shutil.rmtree(w, ignore_errors=True)
import concurrent.futures as cf
with cf.ThreadPoolExecutor(3) as ex:
    for p, m in zip(sys.argv[1:], ex.map(plant, sys.argv[1:])): print(os.path.basename(p), m)
