#!/usr/bin/env python3
"""automut.py [-n COUNT] [-j N] [-s SEED] [FILE-SUBSTRING...]: small random changes of /repo's sources (operators, constants, conditions,
statements left out), each in a scratch copy; runs the checks that own the file until one notices; prints those that none noticed.
A tool for strengthening the checks; no check uses it."""
import os, re, subprocess, sys, shutil, tempfile, random, concurrent.futures as cf, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OWN = {"src/abieos.hpp": "C01 C02 C04 C03", "src/abieos.cpp": "C06 C25 C09 C01", "src/abi.cpp": "C21 C05 C02", "include/eosio/abi.hpp": "C21 C05 C19", "src/crypto.cpp": "C12 C07",
       "include/eosio/abieos_numeric.hpp": "C12", "include/eosio/abieos_ripemd160.hpp": "C13 C12", "include/eosio/asset.hpp": "C16 C15", "include/eosio/bytes.hpp": "C19 C22",
       "include/eosio/chain_conversions.hpp": "C14 C09 C15 C07", "include/eosio/convert.hpp": "C26", "include/eosio/crypto.hpp": "C12 C08 C22", "include/eosio/fixed_bytes.hpp": "C23",
       "include/eosio/for_each_field.hpp": "C19 C22", "include/eosio/fpconv.c": "C11", "include/eosio/from_bin.hpp": "C17 C18 C19 C22", "include/eosio/from_json.hpp": "C28 C10 C11 C19 C01",
       "include/eosio/from_string.hpp": "C09 C15", "include/eosio/murmur.hpp": "C09", "include/eosio/name.hpp": "C09 C27", "include/eosio/opaque.hpp": "C22", "include/eosio/operators.hpp": "C24 C19",
       "include/eosio/ship_protocol.hpp": "C22", "include/eosio/stream.hpp": "C18 C22", "include/eosio/symbol.hpp": "C15 C16", "include/eosio/time.hpp": "C14 C24", "include/eosio/to_bin.hpp": "C17 C18 C19 C22",
       "include/eosio/to_json.hpp": "C20 C10 C11 C19", "include/eosio/to_key.hpp": "C08", "include/eosio/types.hpp": "C19 C21", "include/eosio/varint.hpp": "C17 C24", "tools/name.cpp": "C27"}
OPS = [(r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
       (r" \+ 1\b", ["", " + 2"]), (r" - 1\b", ["", " - 2"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\+\+", ["--"]), (r" \+= ", [" -= ", " = "]), (r" -= ", [" += "]), (r" \+ ", [" - "]), (r" - ", [" + "]),
       (r" \* ", [" + "]), (r" / ", [" * "]), (r" % ", [" / "]), (r" & ", [" | "]), (r" \| ", [" & ", " ^ "]), (r" \|= ", [" = ", " ^= "]), (r" << ", [" >> "]), (r" >> ", [" << "]), (r"!(?=[a-z(])", [""]), (r"\.begin\(\)", [".end()"]),
       (r"\b(\d+)\b", ["+1", "-1"]), (r"\b0x([0-9a-fA-F']+)\b", ["x"])]
def sites(path):
    out = []
    for i, l in enumerate(open("/repo/" + path).read().split("\n")):
        t = l.strip()
        if not t or t.startswith(("//", "*", "/*", "#", "template", "static_assert", "printf", "namespace", "using", "typedef")) or "printf" in l or "trace_" in l or "return \"" in l: continue
        code = re.sub(r'//.*', '', l)
        q = [m.span() for m in re.finditer(r'"(\\.|[^"\\])*"|\'(\\.|[^\'\\])*\'', code)]
        for pat, reps in OPS:
            for m in re.finditer(pat, code):
                if any(a <= m.start() < b for a, b in q): continue
                if pat in (" < ", " > ") and ("template" in code or "typename" in code): continue
                for r in reps:
                    if r in ("+1", "-1"):
                        if code[m.start() - 1:m.start()] in ("<",) or "operator" in code: continue
                        new = str(int(m.group(1)) + int(r)) if not m.group(1).startswith("0") or m.group(1) == "0" else None
                        if new is None or new[0] == "-": continue
                    elif r == "x":
                        try: new = hex(int(m.group(1).replace("'", ""), 16) ^ 1)
                        except ValueError: continue
                    else: new = r
                    out.append((i, m.start(), m.end(), new))
        if t.endswith(";") and not re.match(r"(const |auto |return|uint|int|bool|char|size_t|std::|eosio::[a-z_]+ |break|using|friend|extern|struct|class|}|case|default|public|static|constexpr|inline|f\(\()", t) and (re.match(r"[\w.>\-\[\]*()+:]+\s*(=|\+=|-=|\|=|\()", t) or t.startswith(("++", "--", "*"))):
            out.append((i, len(l) - len(l.lstrip()), len(code.rstrip()), ";"))
    return out
CORE_OLD = "out, st = tlc(module, cfg, env=env, timeout=timeout, extra=extra, workers=workers)\n"
CORE_NEW = '''import pickle
        kk = hashlib.sha256(repr((module, cfg, extra, sorted((k, open(v).read() if os.path.exists(v) else v) for k, v in (env or {}).items()))).encode()).hexdigest()[:24]
        pp = "/tmp/automut_cache/" + kk
        if os.path.exists(pp): out, st = pickle.load(open(pp, "rb"))
        else:
            out, st = tlc(module, cfg, env=env, timeout=timeout, extra=extra, workers=workers)
            os.makedirs("/tmp/automut_cache", exist_ok=True)
            pickle.dump((out, st), open(pp + ".%d" % os.getpid(), "wb")); os.replace(pp + ".%d" % os.getpid(), pp)
'''
loc = threading.local()
def one(m):
    path, (i, a, b, new) = m
    if not hasattr(loc, "w"):
        loc.w = tempfile.mkdtemp(prefix="mut_")
        subprocess.run("git -C /repo archive HEAD | tar -x -C %s" % loc.w, shell=True, check=True)
        shutil.copytree(V, loc.w + "/verif", ignore=shutil.ignore_patterns("build", ".git", "seeded", "replays", "evidence"))
        p = loc.w + "/verif/harness/core.py"; s = open(p).read(); assert CORE_OLD in s
        s = s.replace(CORE_OLD, CORE_NEW).replace("limit=600 << 20", "limit=250 << 20"); open(p, "w").write(s)
    w = loc.w
    orig = open("/repo/" + path).read()
    ls = orig.split("\n"); old = ls[i]
    ls[i] = old[:a] + new + old[b:]
    open(w + "/" + path, "w").write("\n".join(ls))
    res, t0 = [], time.time()
    try:
        for c in OWN[path].split():
            try: r = subprocess.run(["timeout", "1500", "./check", c], cwd=w + "/verif", env=dict(os.environ, VERIF_REPO=w), capture_output=True, text=True, errors="replace")
            except Exception as e: res.append("%s ?%s" % (c, e)); continue
            if r.returncode == 1: res.append("%s caught" % c); break
            if "compile failed" in r.stderr or "link failed" in r.stderr: res.append("no build"); break
            res.append("%s %s" % (c, "MISSED" if r.returncode == 0 else "rc%d %s" % (r.returncode, r.stderr.strip()[-120:])))
    finally: open(w + "/" + path, "w").write(orig)
    v = "caught" if res and "caught" in res[-1] else "nobuild" if res and res[-1] == "no build" else "SURVIVED"
    return "%-8s %s:%d  [%s] -> [%s]  %s %ds" % (v, path, i + 1, old.strip(), ls[i].strip(), ",".join(res), time.time() - t0)
if __name__ == "__main__":
    arg = sys.argv[1:]; opt = {"-n": 20, "-j": 2, "-s": 1}
    for k in list(opt):
        if k in arg: j = arg.index(k); opt[k] = int(arg[j + 1]); del arg[j:j + 2]
    r = random.Random(opt["-s"])
    files = [f for f in OWN if not arg or any(a in f for a in arg)]
    pool = {f: sites(f) for f in files}
    pick = []
    for f in files:
        s = pool[f]; r.shuffle(s)
    k = 0
    while len(pick) < opt["-n"] and any(pool.values()): # weighted by the square root of the number of sites
        f = r.choices(files, [len(pool[f]) ** .5 for f in files])[0]
        if pool[f]: pick.append((f, pool[f].pop()))
    print(sum(len(x) for x in pool.values()) + len(pick), "sites", flush=True)
    with cf.ThreadPoolExecutor(opt["-j"]) as ex:
        for x in ex.map(one, pick): print(x, flush=True)
