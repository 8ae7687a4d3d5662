"""C26 conversions between related types keep what both have"""
import json, os, tempfile
import core
from zoo import *
UNITS = ["convert.cpp"]
READ = {"cv_l": "cv_lw", "cv_ll": "cv_llw", "vec<cv_l>": "vec<cv_lw>", "var<uint8,cv_l>": "var<uint8,cv_lw>", "opt<cv_ll>": "opt<cv_llw>", "map<uint8,cv_l>": "map<uint8,cv_lw>"}
def pairs():
    e = core.run_cases(core.build(UNITS, True), [("cv_list", [])], 1, "C26")[0]
    if e["st"] != "ok": raise core.CheckError("cv_list")
    return [[tuple(k.split(">", 1)) if k.count("<") == 0 else split(k) for k in x.decode().split()] for x in e["out"]]
def split(k):
    d = 0
    for i, ch in enumerate(k):
        if ch == "<": d += 1
        elif ch == ">":
            if d == 0: return k[:i], k[i + 1:]
            d -= 1
def model(c, rel):
    fd, p = tempfile.mkstemp(prefix="verif_convert_", suffix=".json"); os.close(fd)
    json.dump({"env": [entry(x) for x in reach([t for q in rel for t in q])], "rel": [[bs(s), bs(d)] for s, d in rel]}, open(p, "w"))
    n = c.pick(3, 5)
    try: got = c.mc("MC_Convert", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS NothingLost NothingMade Back Same\nCONSTANT Hops = %d\n" % n, env={"SETUP": p, "MC": "Hops=%d" % n}, timeout=3000)
    finally: os.unlink(p)
    return [(bytes(x["s"]).decode(), bytes(x["d"]).decode(), bytes(x["v"])) for x in got]
def run(c):
    r = c.rng
    one, two = pairs()
    rel = list(dict.fromkeys(one + two))
    setup(list(dict.fromkeys([t for q in rel for t in q] + list(READ) + list(READ.values()))))
    cases = []
    def cv(s, d, v, old):
        for ch, have in ((b"1", one), (b"2", two)):
            if (s, d) in have: cases.append(("cv", [s.encode(), d.encode(), ch, v, old]))
    moves = list(dict.fromkeys(model(c, rel)))
    c.notes.update(moves=len(moves))
    for s, d, v in moves: cv(s, d, v, r.choice([b"", wire(r, d, small=True)]))
    for s, d in rel:
        for _ in range(c.pick(40, 400)): cv(s, d, wire(r, s), r.choice([b"", wire(r, d), wire(r, d)]))
    for t, w in READ.items():
        for i in range(c.pick(60, 500)):
            x = wire(r, w, odd=r.choice([0, 0, 1]))
            if len(x) > 200 and i % 8: continue
            k = r.random()
            if k < .3 and x: x = bytearray(x); x[r.randrange(len(x))] ^= r.choice([1, 128, 255]); x = bytes(x)
            elif k < .4: x += r.randbytes(2)
            elif k < .5: x = x[:r.randrange(len(x) + 1)]
            cases.append(("cv_from", [t.encode(), x]))
            if len(x) < 120: cases.append(("cv_cut", [t.encode(), x]))
            cases.append(("cv_reuse", [t.encode(), x, wire(r, t)]))
    c.conform(UNITS, "T_Convert", "ConvertJudge", cases, per_op=20)
    return c.finish("every migration of a record along %d pairs of related types" % len(rel))
