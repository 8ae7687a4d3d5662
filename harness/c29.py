"""C29 built without native 128-bit integers"""
from cases import *
import c10
NO = ["-DABIEOS_NO_INT128"]
WIDE = {"int128": (16, 1), "uint128": (16, 0)}
def run(c):
    r = c.rng
    em = []
    for w, n in ((1, c.pick(4, 5)), (2, c.pick(5, 6))):
        em += c.mc("MC_Dec", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Holding Agree Negated Prints\nCONSTANTS Width = %d\nMaxLen = %d\n" % (w, n), env={"MC": "Width=%d" % w})
    r.shuffle(em)
    # the row of bytes by itself
    cases = c10.row_cases(c)
    for x in em[:c.pick(1500, 20000)]: cases.append(("dec_to_bin", [bytes([1]), bytes(x["t"])]))
    for x in em[:c.pick(600, 5000)]: cases.append(("int_from_json", [r.choice([b"int128", b"uint128"]), b'"' + bytes(x["t"]) + b'"']))
    cases += c10.gen(c, WIDE)
    rest = c10.gen(c, {k: v for k, v in c10.TY.items() if k not in WIDE})
    cases += r.sample(rest, min(len(rest), c.pick(1500, 20000)))
    c.conform(["no128.cpp"], "T_Ints", "IntsJudge", cases, defs=NO)
    # inside of everything
    docs = []
    d = new()
    d["types"] = [("I", "int128"), ("U", "uint128"), ("IA", "I[]")]
    d["structs"] = [("S", "", [("a", "int128"), ("b", "uint128?"), ("c", "I"), ("d", "U[]"), ("e", "int128$")]), ("T", "S", []), ("P", "", [("x", "int8"), ("i", "int128"), ("y", "int8"), ("u", "uint128"), ("z", "bool")])]
    d["variants"] = [("V", ["int128", "U", "S", "int128[]"])]
    tx = jtext(d)
    def rendered(t):
        v = fitting(r, d, t)
        if v is None: return
        s = render(r, v)
        docs.append((r.choice(["ord", "ordx", "reo", "reox"]), [tx, t.encode(), s]))
        if r.random() < .5: docs.append((r.choice(["ord", "ordx", "reo", "reox"]), [tx, t.encode(), render(r, mutate(r, v))]))
    for _ in range(c.pick(120, 2500)):
        for t in ("S", "T", "P", "V", "IA", "U?", "V[]", "int128", "uint128[]"): rendered(t)
    for x, root in [(bytes(r.choice([0, 1, 2, 127, 128, 255, r.randrange(256)]) for _ in range(r.choice([16, 16, 15, 17, 32, 33, 51, 60, 80]))), r.choice(["int128", "uint128", "P", "S", "V", "IA", "U?", "uint128[]"])) for _ in range(c.pick(600, 9000))]:
        if root in ("V", "IA", "uint128[]", "U?"): x = bytes([r.choice([0, 1, 1, 2, 3])]) + x
        docs.append((r.choice(["dec", "dech"]), [tx, root.encode(), x]))
    for dd, t in pool(c, c.pick(25, 300)):
        v = fitting(r, dd, t)
        if v is not None: docs.append((r.choice(["ord", "ordx", "reo", "reox"]), [jtext(dd), t.encode(), render(r, v)]))
    docs = [(op[:3] + "x" if op in ("ord", "reo") and b"\0" in a[2] else op, a) for op, a in docs]
    c.conform(["codec.cpp"], "T_Codec", "CodecJudge", docs, abis=True, defs=NO)
    return c.finish("texts of the model and of C10 for all integer types, and documents and binaries with 128-bit integers everywhere, on the library compiled with ABIEOS_NO_INT128")
