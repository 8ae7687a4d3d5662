#!/usr/bin/env python3
"""mutate.py FILE.py [-j N]: FILE defines MUTANTS = [(name, path, old, new, "C01 C02")]; runs the named checks against a scratch copy
of /repo with each change, and prints which of them notice it (a tool for strengthening the checks; no check uses it)"""
import os, subprocess, sys, shutil, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def one(m):
    name, path, old, new, ids = m
    w = tempfile.mkdtemp(prefix="mut_")
    try:
        subprocess.run("git -C /repo archive HEAD | tar -x -C %s" % w, shell=True, check=True)
        shutil.copytree(V, w + "/verif", ignore=shutil.ignore_patterns("build", ".git", "seeded", "replays", "evidence"))
        s = open(w + "/" + path).read()
        if s.count(old) < 1: return "%s: no match" % name
        n = s.count(old)
        open(w + "/" + path, "w").write(s.replace(old, new, 1))
        out = []
        for i in ids.split():
            r = subprocess.run(["./check", i], cwd=w + "/verif", env=dict(os.environ, VERIF_REPO=w), capture_output=True, text=True, errors="replace")
            ls = [l for l in r.stdout.split("\n") if "violation 0" in l] + [l for l in r.stderr.split("\n") if "violation" in l][:1]
            last = (r.stderr.strip().split("\n") or [""])[-1]
            out.append("%s %s %s" % (i, {0: "MISSED", 1: "caught"}.get(r.returncode, "rc %d" % r.returncode), (ls[0] if ls else last)[:260] if r.returncode else ""))
        return "%s%s: %s" % (name, " (%d matches)" % n if n > 1 else "", "; ".join(out))
    finally: shutil.rmtree(w, ignore_errors=True)
if __name__ == "__main__":
    j = int(sys.argv[sys.argv.index("-j") + 1]) if "-j" in sys.argv else 3
    g = {}; exec(open(sys.argv[1]).read(), g)
    with cf.ThreadPoolExecutor(j) as ex:
        for r in ex.map(one, g["MUTANTS"]): print(r, flush=True)
