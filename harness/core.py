"""Shared machinery: build the driver from /repo, run cases on the real code, let TLC judge the recorded trace."""
import concurrent.futures as cf, hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CXX = ["clang++", "-std=gnu++17", "-O0", "-g1", "-w", "-fsanitize=address", "-fno-omit-frame-pointer",
       "-fno-sanitize-recover=all", "-include", "cstdint", "-include", "limits",
       "-I" + VERIF + "/shim", "-I" + VERIF + "/driver", "-I" + REPO + "/include", "-I" + REPO + "/src"]
LIB = ["src/abieos.cpp", "src/abi.cpp", "src/crypto.cpp", "include/eosio/fpconv.c"]

class CheckError(Exception):
    """the check itself could not run (never a verdict)"""

def log(*a):
    print(*a, file=sys.stderr, flush=True)

# ---------------------------------------------------------------- build
def _tree_hash():
    h = hashlib.sha256()
    for root in (REPO + "/src", REPO + "/include", REPO + "/tools", VERIF + "/shim"):
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode()); h.update(open(p, "rb").read())
    for f in ("drv.hpp", "types.hpp", "zoo.hpp"):
        p = VERIF + "/driver/" + f
        if os.path.exists(p): h.update(open(p, "rb").read())
    h.update(" ".join(CXX).encode())
    return h.hexdigest()

def build(units, lib=True, san="address", defs=()):
    """compile driver units (+ the library) from the current tree; returns the executable"""
    os.makedirs(BUILD, exist_ok=True)
    flags = [f.replace("=address", "=" + san) for f in CXX] + list(defs)
    th = _tree_hash()
    srcs = [VERIF + "/driver/drv_main.cpp"] + [u if u.startswith("/") else VERIF + "/driver/" + u for u in units]
    if lib: srcs += [REPO + "/" + s for s in LIB]
    objs, jobs = [], []
    for s in srcs:
        k = hashlib.sha256((th + s + (san if san != "address" else "") + "".join(defs)).encode() + open(s, "rb").read()).hexdigest()[:24]
        o = os.path.join(BUILD, os.path.basename(s) + "." + k + ".o")
        objs.append(o)
        if not os.path.exists(o): jobs.append((s, o))
    key = hashlib.sha256(" ".join(objs).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, "drv." + key)
    if os.path.exists(exe): return exe
    _prune(set(objs))
    def comp(j):
        s, o = j
        tmp = o + ".tmp%d" % os.getpid()
        cmd = flags + (["-x", "c++"] if s.endswith(".c") else []) + ["-c", s, "-o", tmp]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode: raise CheckError("compile failed: %s\n%s" % (s, r.stderr[-3000:]))
        os.replace(tmp, o)
    with cf.ThreadPoolExecutor(8) as ex: list(ex.map(comp, jobs))
    tmp = exe + ".tmp%d" % os.getpid()
    r = subprocess.run(["clang++", "-fsanitize=" + san, "-o", tmp] + objs, capture_output=True, text=True)
    if r.returncode: raise CheckError("link failed\n" + r.stderr[:3000])
    os.replace(tmp, exe)
    return exe

def _prune(keep, limit=600 << 20):
    fs = [os.path.join(BUILD, f) for f in os.listdir(BUILD)]
    fs = sorted((os.path.getmtime(f), os.path.getsize(f), f) for f in fs if os.path.isfile(f) and f not in keep)
    tot = sum(x[1] for x in fs)
    for _, sz, f in fs:
        if tot < limit: break
        os.unlink(f); tot -= sz

# ---------------------------------------------------------------- run cases on the real code
def H(b): return b.hex() if b else "-"
def run_cases(exe, cases, per_op=20, tag="run"):
    """cases: list of (op, [bytes...]) ; returns events [{id,op,in,st,mem,out}]"""
    evs = [None] * len(cases)
    work = tempfile.mkdtemp(prefix="verif_%s_" % tag)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=77:allocator_may_return_null=0:max_allocation_size_mb=3000:"
               "hard_rss_limit_mb=6000:detect_stack_use_after_return=0:handle_abort=1:symbolize=1",
               TSAN_OPTIONS="halt_on_error=1:exitcode=66:allocator_may_return_null=0:symbolize=1", TSAN_SYMBOLIZER_PATH=shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18") or "",
               ASAN_SYMBOLIZER_PATH=shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18") or "", TZ="UTC", LC_ALL="C")
    def worker(idx):
        todo = idx
        while todo:
            inp = "".join("%d %s%s\n" % (i, cases[i][0], "".join(" " + H(x) for x in cases[i][1])) for i in todo)
            p = subprocess.run([exe, str(per_op)], input=inp.encode(), capture_output=True, cwd=work, env=env)
            n = 0
            for ln in p.stdout.decode("ascii", "replace").split("\n"):
                t = ln.split(" ")
                if len(t) < 3 or n >= len(todo) or t[0] != str(todo[n]): continue
                evs[todo[n]] = (t[1], int(t[2]), [bytes.fromhex(x) if x != "-" else b"" for x in t[3:]], "")
                n += 1
            if p.returncode == 99: raise CheckError("driver: " + p.stderr.decode()[-300:])
            if n == len(todo):
                if p.returncode != 0: log("driver exited", p.returncode, "after last case")
                break
            st = "timeout" if p.returncode in (-signal.SIGALRM, -signal.SIGPROF) else "crash"
            evs[todo[n]] = (st, 0, [], p.stderr.decode("utf8", "replace")[:3000])
            todo = todo[n + 1:]
    W = 8 if len(cases) > 64 else 1
    parts = [list(range(k, len(cases), W)) for k in range(W)]
    try:
        with cf.ThreadPoolExecutor(8) as ex: list(ex.map(worker, parts))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    out = []
    for i, (op, args) in enumerate(cases):
        st, mem, o, err = evs[i]
        out.append({"id": i, "op": op, "in": list(args), "st": st, "mem": mem, "out": o, "stderr": err})
    return out

# ---------------------------------------------------------------- TLC
def jbytes(x):
    if isinstance(x, (bytes, bytearray)): return list(x)
    if isinstance(x, (list, tuple)): return [jbytes(y) for y in x]
    if isinstance(x, dict): return {k: jbytes(v) for k, v in x.items()}
    return x

def tlc(module, cfg_text, env=None, workers=8, timeout=800, extra=(), heap="8g", specdir=None, simulate=None):
    """run TLC on spec/<module>.tla with the given configuration; returns (output, stats)"""
    work = tempfile.mkdtemp(prefix="verif_tlc_")
    try:
        cfg = os.path.join(work, "m.cfg")
        open(cfg, "w").write(cfg_text)
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + work, "-Dtlc2.TLC.stopAfter=%d" % timeout, "-cp", TLA_CP, "tlc2.TLC", "-config", cfg,
               "-workers", str(workers), "-metadir", os.path.join(work, "md"), "-noGenerateSpecTE", "-lncheck", "final"] + list(extra) + \
              [(specdir or VERIF + "/spec") + "/" + module + ".tla"]
        e = dict(os.environ); e.update(env or {})
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, errors="replace", env=e, timeout=timeout + 60, cwd=specdir or VERIF + "/spec")
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timeout on " + module)
        out = p.stdout
        st = {"rc": p.returncode, "generated": 0, "distinct": 0}
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        if m: st["generated"], st["distinct"] = int(m.group(1)), int(m.group(2))
        return out, st
    finally:
        shutil.rmtree(work, ignore_errors=True)

def tlc_ok(out, st, module):
    if st["rc"] != 0:
        i = out.find("Error:")
        if "Parsing or semantic" in out: i = max(0, len(out) - 3000)
        raise CheckError("TLC failed on %s (rc %s)\n%s" % (module, st["rc"], out[i if i >= 0 else -3000:][:4000]))

def _size(x): return sum(map(_size, x)) if isinstance(x, (list, tuple)) else len(x)
def _split(events, abis, parts):
    """split a trace into parts of about the same cost (events of one ABI together, as far as that goes)"""
    groups = {}
    for i, e in enumerate(events): groups.setdefault(e["in"][0] if abis else i % (8 * parts), []).append(e)
    def cost(e):
        n = _size(e["in"][1 if abis else 0:]) + _size(e["out"])
        return 40 + n * (1 + n / 800)
    lim = sum(map(cost, events)) / (3 * parts)
    pieces = []
    for a, es in groups.items():
        base = len(a) / 2 if abis else 0
        cur, s = [], 0
        for e in es:
            k = cost(e)
            if cur and s + k > lim: pieces.append((s + base, cur)); cur, s = [], 0
            cur.append(e); s += k
        pieces.append((s + base, cur))
    bins = [[0, []] for _ in range(parts)]
    for s, es in sorted(pieces, key=lambda x: -x[0]):
        b = min(bins, key=lambda x: x[0]); b[0] += s; b[1] += es
    return [b[1] for b in bins if b[1]]
def validate(module, judge, events, timeout=800, spec="Spec", extra_cfg="", abis=False, enc=None, parts=None):
    """trace validation: events judged by spec operator `judge` in spec/<module>.tla (extends Conf).
       returns (rejects {id: text}, stats).  The trace is validated by several TLCs of one worker
       each (with one worker TLC remembers what it has evaluated, which pays more than threads do)."""
    if not events: return {}, {"generated": 0, "distinct": 0}
    todo = _split(events, abis, parts or (8 if len(events) > 24 else 1))
    one = lambda es: _validate(module, judge, es, timeout, spec, extra_cfg, abis, enc)
    with cf.ThreadPoolExecutor(8) as ex: rs = list(ex.map(one, todo))
    rej = {}
    for r, _ in rs: rej.update(r)
    return rej, {k: sum(st[k] for _, st in rs) for k in ("generated", "distinct")}
def _validate(module, judge, events, timeout, spec, extra_cfg, abis, enc):
    fd, path = tempfile.mkstemp(prefix="verif_trace_", suffix=".ndjson"); os.close(fd)
    try:
        table = {}
        intern = lambda x: table.setdefault(x, len(table) + 1)   # each ABI is given to the specification once
        with open(path, "w") as f:
            for e in events:
                if enc: d = jbytes(enc(e, intern))
                else:
                    d = {"id": e["id"], "op": e["op"], "in": jbytes(e["in"]), "st": e["st"], "mem": e["mem"], "out": jbytes(e["out"]) if e["st"] == "ok" else []}
                    if "hint" in e: d["hint"] = jbytes(e["hint"])
                    if abis: d["abi"] = intern(e["in"][0]); d["in"] = d["in"][1:]
                f.write(json.dumps(d, separators=(",", ":")) + "\n")
        json.dump([jbytes(t) for t in table], open(path + ".abis", "w"))
        cfg = "SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n%s%s" % (spec, "CONSTANT Judge <- %s\n" % judge if judge else "", extra_cfg)
        out, st = tlc(module, cfg, env={"TRACE": path, "NCHUNKS": "1", "ABIS": path + ".abis"}, timeout=timeout, workers=1, heap="3g")
        tlc_ok(out, st, module)
        rej, done = {}, set()
        for ln in out.split("\n"):
            m = re.match(r'^"REJECT (\d+) (.*)"$', ln)
            if m: rej[int(m.group(1))] = m.group(2)
            m = re.match(r'^"DONE (\d+)"$', ln)
            if m: done.add(int(m.group(1)))
        if len(done) != 1: raise CheckError("%s: the end of the trace was not reached" % module)
        return rej, st
    finally:
        os.unlink(path)
        if os.path.exists(path + ".abis"): os.unlink(path + ".abis")

# ---------------------------------------------------------------- check driver
class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random("%s/%d" % (pid, self.seed))
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.nontrivial = set()
        self.samples, self.viol, self.notes, self.opcount = [], [], {}, {}
        self.assume = []
        self.exhaustive = None
        self.level = "model_checking"
    def thorough(self): return self.tier == "thorough"
    def pick(self, q, t): return t if self.thorough() else q
    def add_states(self, st):
        self.states += st["distinct"]; self.transitions += st["generated"]
    def known(self):
        k = {}
        p = VERIF + "/known_findings.txt"
        if os.path.exists(p):
            for ln in open(p):
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", ln)
                if m and m.group(1) == self.pid: k[m.group(2)] = m.group(3).strip()
        return k
    def mc(self, module, cfg, env=None, timeout=800, extra=(), workers=8, expect_states=None):
        """model check; returns emitted CASE lines (parsed json)"""
        out, st = tlc(module, cfg, env=env, timeout=timeout, extra=extra, workers=workers)
        if st["rc"] in (10, 11, 12, 13, 14):
            i = out.find("Error:")
            raise CheckError("model violates its own property in %s:\n%s" % (module, out[i:i + 3000]))
        tlc_ok(out, st, module)
        self.add_states(st)
        cases = []
        # (sorted: TLC's workers emit in any order)
        for ln in sorted(l for l in out.split("\n") if l.startswith('"CASE ')):
            cases.append(json.loads(json.loads(ln)[5:]))
        self.notes.setdefault("mc", {})[module + (":" + env["MC"] if env and "MC" in env else "")] = st["distinct"]
        return cases
    def conform(self, units, module, judge, cases, lib=True, per_op=20, timeout=800, key=None, filt=None, spec="Spec", hint=None, abis=False, enc=None, san="address", defs=()):
        """run the cases on the code, validate against the spec, record violations"""
        exe = build(units, lib, san, defs)
        cases = [(c[0], list(c[1])) for c in cases]
        evs = run_cases(exe, cases, per_op, self.pid)
        if hint:
            for e in evs: hint(e)
        rej, st = validate(module, judge, evs, timeout=timeout, spec=spec, abis=abis, enc=enc)
        self.add_states(st)
        self.traces += len(evs)
        for e in evs:
            self.opcount.setdefault(e["op"], {"ok": 0, "err": 0}).setdefault(e["st"], 0)
            self.opcount[e["op"]][e["st"]] += 1
            self.nontrivial.add(hash((e["op"], tuple(e["in"]))))
        for op in sorted({e["op"] for e in evs}):
            xs = [e for e in evs if e["op"] == op]
            for e in self.rng.sample(xs, 1):
                if len(self.samples) < 40:
                    self.samples.append({"op": op, "in": [x[:200].decode("latin1") if op.find("str") < 0 and all(32 <= y < 127 for y in x) else x[:200].hex() for x in e["in"][:6]],
                                         "result": e["st"], "out": [x[:80].hex() for x in e["out"][:4]]})
        if not rej: return evs
        # repeat every rejection before reporting it
        ids = sorted(rej)[:200]
        again = run_cases(exe, [cases[i] for i in ids], per_op, self.pid)
        if hint:
            for e in again: hint(e)
        rej2, _ = validate(module, judge, again, timeout=timeout, spec=spec, abis=abis, enc=enc)
        again = {i for k, i in enumerate(ids) if k in rej2}
        if len(again) < len(ids):
            # alone it goes well: does it fail again after the same calls before it?
            evs2 = run_cases(exe, cases, per_op, self.pid)
            if hint:
                for e in evs2: hint(e)
            rej3, _ = validate(module, judge, [evs2[i] for i in ids if i not in again], timeout=timeout, spec=spec, abis=abis, enc=enc)
            again |= set(rej3)
        know = self.known()
        for i in ids:
            if i not in again: log("rejection of case %d not repeated; dropped" % i); continue
            e = evs[i]
            kk = key(e) if key else None
            if kk is not None and kk in know:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, know[kk])); continue
            self.viol.append((e, rej[i], (units, module, judge)))
        return evs
    def finish(self, rule, assume=()):
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
                           "evaluations": self.traces, "distinct_nontrivial": len(self.nontrivial), "rule": rule,
                           "per_op": self.opcount, "samples": self.samples[:40], **self.notes},
              "assumptions": list(assume) + self.assume, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        if self.exhaustive is not None: ev["coverage"]["exhaustive"] = self.exhaustive
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        json.dump(ev, open(VERIF + "/evidence/%s.json" % self.pid, "w"), indent=1)
        if self.viol:
            d = VERIF + "/replays"; os.makedirs(d, exist_ok=True)
            for n, (e, want, how) in enumerate(self.viol[:20]):
                p = d + "/%s-%d.json" % (self.pid, n)
                json.dump({"property": self.pid, "op": e["op"], "in_hex": [x.hex() for x in e["in"]], "in_text": [x.decode("latin1") for x in e["in"]],
                           "observed": e["st"], "observed_out_hex": [x.hex() for x in e["out"]], "observed_out_text": [x.decode("latin1") for x in e["out"]],
                           "spec_expects": want[:4000], "stderr": e["stderr"], "units": how[0], "module": how[1], "judge": how[2]}, open(p, "w"), indent=1)
                if n == 0: print("VIOLATION property=%s replay=%s" % (self.pid, p))
                if n < 5: log(("  violation %d: op=%s st=%s in=%s want=%s got=%s" % (n, e["op"], e["st"], [x[:60] for x in e["in"]], want[:120], [x[:60] for x in e["out"]]))[:700])
            sys.stdout.flush()
            return 1
        print("%s: held on %d conformance cases, %d model states (%.1fs)" % (self.pid, self.traces, self.states, time.time() - self.t0))
        return 0
