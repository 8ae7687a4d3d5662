"""C04 binary extensions"""
from cases import *
def ext_abi(r):
    """structs with extensions in all kinds of places"""
    d = new(); names = ["X%d" % i for i in range(r.randrange(2, 6))]
    for i, n in enumerate(names):
        later = names[i + 1:]
        base = r.choice(later) if later and r.random() < .25 else ""
        fs = []
        for j in range(r.randrange(1, 5)):
            t = r.choice(later) if later and r.random() < .5 else r.choice(["int8", "bool", "string", "uint16"])
            if later and r.random() < .15: t = "V"
            fs.append(("f%d_%d" % (i, j), t + r.choice(["", "", "$", "$", "$", "?", "[]", "?$", "[]$"])))
        d["structs"].append((n, base, fs))
    d["variants"] = [("V", r.sample(names[1:] + ["int8", names[-1] + "?", names[-1] + "[]"], min(3, len(names))))]
    d["variants"] = [("V", [x for x in d["variants"][0][1] if not x.startswith("X") or x.rstrip("?[]") == names[-1]] or ["int8"])]
    if any(t.startswith("V") for _, _, f in d["structs"][-1:] for _, t in f): d["structs"][-1] = (names[-1], "", [("z", "int8$")])
    return d
def run(c):
    r = c.rng
    cases = []
    for x in some(r, model_docs(c, exts(), c.pick(7, 9)), lambda x: x[3] or x[4], c.pick(400, 8000), c.pick(300, 8000)): cases.append((r.choice(["ord", "reo"]), list(x[:3])))
    for x in some(r, model_bins(c, exts(), c.pick(5, 6)), lambda x: x[3], c.pick(300, 4000), c.pick(200, 8000)): cases.append(("dec", list(x[:3])))
    for _ in range(c.pick(60, 900)):
        d = ext_abi(r); tx = jtext(d)
        for t in roots(r, d, 0):
            v = fitting(r, d, t); b = fitting_bin(r, d, t, False)
            tb = t.encode()
            if v is not None:
                for _ in range(2):
                    w = v if r.random() < .3 else mutate(r, v, ["drop", "drop", "drop", "swap", "add", "replace"])
                    cases.append((r.choice(["ord", "ordx"]), [tx, tb, render(r, w)])); cases.append((r.choice(["reo", "reox"]), [tx, tb, render(r, permute(r, w) if r.random() < .5 else w)]))
            if b is not None:
                for x in {b, b[:-1], b[:len(b) // 2], b + b"\0", b[:1], b[:r.randrange(len(b) + 1)]}: cases.append((r.choice(["dec", "dec", "decx", "dech"]), [tx, tb, x]))
    tx, es = ext_places()
    for t, j, b in es:
        cases += [("ord", [tx, t.encode(), j]), ("reo", [tx, t.encode(), j])]
        for x in {b, b[:-1]}: cases.append(("dec", [tx, t.encode(), x]))
    # long rows of extensions, every possible end
    d = new(); d["structs"] = [("T", "", [("e%d" % i, r.choice(["int8", "bool", "string"]) + "$") for i in range(6)]), ("U", "", [("h", "int8"), ("t", "T")]), ("W", "", [("t", "T"), ("h", "int8")]), ("Y", "T", [("q", "T$")]), ("Q", "", [("x", "T?"), ("y", "T$")])]
    tx = jtext(d); ty = Types(d)
    for t in ("T", "U", "W", "Y", "Q", "T[]", "T?", "T$"):
        for _ in range(c.pick(6, 60)):
            v = fitting(r, d, t); b = fitting_bin(r, d, t, False)
            if v is None or b is None: continue
            cases.append(("ord", [tx, t.encode(), render(r, v)])); cases.append(("reo", [tx, t.encode(), render(r, permute(r, v))]))
            for i in range(len(b) + 1): cases.append(("dec", [tx, t.encode(), b[:i]]))
    c.conform(["codec.cpp"], "T_Codec", "CodecJudge", cases, abis=True)
    return c.finish("every document of up to %d tokens and binary of up to %d bytes for ten root types full of extensions (TLC), replayed; random structures of extensions (nested last fields, optionals, variants, arrays, bases), members dropped anywhere, binaries cut at every place" % (c.pick(7, 9), c.pick(5, 6)))
