"""shared by C01-C04: cases for the conversions"""
import os, tempfile
from valgen import *
bs = lambda s: list(s.encode())
def small():
    """the ABI whose documents and binaries are enumerated"""
    d = new()
    d["types"] = [("Al", "V")]
    d["structs"] = [("B", "", [("a", "int8")]), ("S", "B", [("b", "B$"), ("c", "bool$")]), ("R", "", [("a", "S"), ("b", "S$")]), ("E", "", [])]
    d["variants"] = [("V", ["int8", "B", "S", "int8[]"])]
    return d, ["S", "R", "Al", "V?", "B[]", "R$", "E[]"]
def exts():
    """extensions everywhere"""
    d = new()
    d["structs"] = [("E", "", []), ("X", "", [("a", "int8$"), ("b", "int8$")]), ("P", "", [("x", "X"), ("y", "X?$")]), ("L", "", [("a", "int8"), ("x", "X")]), ("A", "", [("a", "X[]"), ("b", "V$")]), ("N", "X", [("c", "int8$")]), ("M", "", [("a", "E$"), ("b", "int8$")])]
    d["variants"] = [("V", ["int8", "X", "L"])]
    return d, ["X", "P", "L", "A", "N", "M", "V", "X?", "X[]", "L$"]
def ext_places():
    """a struct that ends in an extension, by itself and inside of everything, in every place of another struct: (abi, root, documents in order, binaries)"""
    d = new()
    d["structs"] = [("E", "", [("a", "int8"), ("b", "int8$")]), ("F", "E", [("c", "bool$")])]
    d["variants"] = [("VE", ["int8", "E"]), ("VV", ["int8", "VA"])]; d["types"] = [("AE", "E"), ("VA", "VE"), ("AV", "VA")]
    ty = {"E": 0, "F": 0, "AE": 0, "E?": 0, "E[]": 1, "VE": 2, "VA": 2, "AV": 2, "VE?": 2, "VE[]": 3, "VV": 4, "E$": 0, "VE$": 2}
    out = []
    for n, (t, k) in enumerate(ty.items()):
        for i, places in enumerate(([("q", t), ("z", "int8")], [("z", "int8"), ("q", t)], [("q", t), ("r", "int8$")], [("q", t)])):
            if t.endswith("$") and i == 0: continue
            d["structs"] += [("S%d_%d" % (n, i), "", places), ("T%d_%d" % (n, i), "S%d_%d" % (n, i), [("w", "int8" + ("$" if t[-1] == "$" else ""))]), ("U%d_%d" % (n, i), "", [("s", "S%d_%d" % (n, i)), ("w", "int8")])]
            for full in (0, 1):
                j = '{"a":1' + (',"b":2' if full else "") + "}"; b = b"\1\2" if full else b"\1"
                if t == "F" and full: j = '{"a":1,"b":2,"c":true}'; b = b"\1\2\1"
                if k == 1: j, b = "[%s]" % j, b"\1" + b
                if k in (2, 3): j, b = '["E",%s]' % j, b"\1" + b
                if k == 3: j, b = "[%s]" % j, b"\1" + b
                if k == 4: j, b = '["VA",["E",%s]]' % j, b"\1\1" + b
                if "?" in t: b = b"\1" + b
                for tail in (0, 1):
                    if i == 3 and tail: continue
                    z = '"z":3' if i < 2 else '"r":3'; zb = b"\3"
                    if i == 2 and not tail: js, bb = '"q":' + j, b
                    elif i == 1: js, bb = z + ',"q":' + j, zb + b
                    elif i == 3: js, bb = '"q":' + j, b
                    else: js, bb = '"q":' + j + "," + z, b + zb
                    out.append(("S%d_%d" % (n, i), "{" + js + "}", bb)); out.append(("T%d_%d" % (n, i), "{" + js + ',"w":4}', bb + b"\4")); out.append(("U%d_%d" % (n, i), '{"s":{' + js + '},"w":4}', bb + b"\4"))
                    if i == 1: out += [("S%d_%d[]" % (n, i), "[{" + js + "}]", b"\1" + bb), ("S%d_%d?" % (n, i), "{" + js + "}", b"\1" + bb), ("S%d_%d$" % (n, i), "{" + js + "}", bb)]
    return jtext(d), [(t, j.encode(), b) for t, j, b in dict.fromkeys(out)]
def setup(d, rs):
    toks = [{"t": "num", "v": bs("1")}, {"t": "null", "v": []}, {"t": "true", "v": []}, {"t": "str", "v": bs("int8")}, {"t": "str", "v": bs("S")}, {"t": "str", "v": bs("X")}]
    fd, p = tempfile.mkstemp(prefix="verif_setup_", suffix=".json"); os.close(fd)
    json.dump({"abi": list(jtext(d)), "roots": [bs(x) for x in rs], "toks": toks, "keys": [bs(x) for x in ("a", "b", "c", "x", "y", "z")], "bytes": [0, 1, 2, 128], "exact": not any(x == "E$" for _, _, f in d["structs"] for _, x in f)}, open(p, "w"))
    return p
def model_docs(c, which, toks):
    """every document of up to so many tokens, checked in the model and replayed"""
    d, rs = which
    p = setup(d, rs)
    try: em = c.mc("MC_Json", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS MachineOrdered MachineAnyOrder Lax Back\nCONSTANT MaxToks = %d\n" % toks, env={"SETUP": p, "MC": rs[0]}, timeout=3000)
    finally: os.unlink(p)
    t = jtext(d)
    return [(t, bytes(x["root"]), model_text(c.rng, x["doc"]), x["o"], x["a"]) for x in em]
def model_bins(c, which, n):
    d, rs = which
    rs = [x for x in rs if x != "E[]"]   # elements of no size: see C07
    p = setup(d, rs)
    try: em = c.mc("MC_Bin", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS MachineBin Bounded Round\nCONSTANT MaxLen = %d\n" % n, env={"SETUP": p, "MC": rs[0]}, timeout=3000)
    finally: os.unlink(p)
    t = jtext(d)
    return [(t, bytes(x["root"]), bytes(x["s"]), x["ok"]) for x in em]
def some(r, xs, good, n, m):
    """at most n of the good ones, m of the others"""
    g = [x for x in xs if good(x)]; b = [x for x in xs if not good(x)]
    return sample(r, g, n) + sample(r, b, m)
def sample(r, xs, n): return xs if len(xs) <= n else r.sample(xs, n)
def nest(n, kind):
    """a type and a document with n containers open, and its binary"""
    d = new()
    d["structs"] = [("S", "", [("a", "S[]")]), ("O", "", [("a", "O?")]), ("W", "", [("v", "V")]), ("X", "", [("a", "X$")])]
    d["variants"] = [("V", ["int8", "V", "W", "V[]"])]
    if kind == "S": # struct and array alternate
        t, o, cl, b = "S", ["{\"a\":", "["], ["}", "]"], [b"", b"\1"]
        s = "".join(o[i % 2] for i in range(n)); x = "".join(cl[i % 2] for i in reversed(range(n)))
        if n % 2: s += "[]"  # one more container
        else: x = x[0:]; 
        bb = b"\1" * (n // 2 - (1 if n % 2 == 0 else 0)) + b"\0" if n > 1 else b"\0"
        return d, "S", (s + x), bb
    if kind == "O": return d, "O", '{"a":' * n + "null" + "}" * n, b"\1" * (n - 1) + b"\0"
    if kind == "V": return d, "V", '["V",' * (n - 1) + '["int8",1]' + "]" * (n - 1), b"\1" * (n - 1) + b"\0\1"
    if kind == "X": return d, "X", '{"a":' * (n - 1) + "{}" + "}" * (n - 1), b""
def rnd_abis(c, n, wild=0.0):
    r = c.rng
    out = []
    while len(out) < n:
        d = gen(r, r.randrange(2, 8), wild)
        d["actions"] = d["tables"] = []
        out.append(d)
    return out
def rich():
    """all scalars and constructions in one definition"""
    d = new()
    d["structs"] = [("base", "", [("id", "uint64"), ("nm", "name")]), ("all", "base", [("f_" + b, b) for b in BUILTIN]), ("opts", "", [("o_" + b, b + "?") for b in BUILTIN[:16]] + [("a_" + b, b + "[]") for b in BUILTIN[16:]]),
                    ("tree", "", [("v", "int8"), ("kids", "tree[]"), ("next", "tree?")]), ("ext", "base", [("a", "string"), ("x", "vr$"), ("y", "opts$"), ("z", "tree?$")]), ("empty", "", []), ("é\"", "", [("a b", "int8"), ("q\"\\", "string")])]
    d["variants"] = [("vr", ["int8", "string", "tree", "base", "empty", "asset", "al"])]
    d["types"] = [("al", "tree[]"), ("al2", "al")]
    return d
def fitting(r, d, t):
    ty = Types(d)
    for _ in range(4):
        try: return doc(r, ty, t)
        except Deep: pass
    return None
def fitting_bin(r, d, t, odd=True):
    ty = Types(d)
    for _ in range(4):
        try: return binary(r, ty, t, odd=odd)
        except Deep: pass
    return None
def pool(c, n):
    """(definition, root) pairs"""
    r = c.rng
    out = []
    for d in rnd_abis(c, n) + [rich(), small()[0], exts()[0]] * 3:
        for t in roots(r, d): out.append((d, t))
    return out

def wide(n=140, same=125):
    """a variant of very many alternatives (the first is repeated), a struct of very many fields"""
    d = new()
    ts = [["int8", "uint16", "string", "bool"][i % 4] for i in range(n)]
    d["types"] = [("a%d" % i, t) for i, t in enumerate(ts)]
    d["structs"] = [("W", "", [("f%d" % i, ["a%d" % i, t][i % 2]) for i, t in enumerate(ts)]), ("H", "", [("v", "V"), ("w", "V[]")])]
    d["variants"] = [("V", ["a0"] * same + ["a%d" % i for i in range(n)])]
    return bintext(d), ts
def wide_value(r, t): return {"int8": ("5", b"\5"), "uint16": ("513", b"\1\2"), "string": ('"ab"', b"\2ab"), "bool": ("true", b"\1")}[t]
def wide_cases(r, n=140, same=125):
    """(type, text, binary): the borders of one-byte counts and of a byte"""
    tx, ts = wide(n, same)
    out = []
    def pick(i):
        a = max(0, i - same); return '["a%d",%s]' % (a, wide_value(r, ts[a])[0]), vu(i) + wide_value(r, ts[a])[1]
    for i in (0, 1, same, same + 1, 126, 127, 128, 129, 200, 254, 255, 256, 257, n + same - 1):
        j, b = pick(i); out.append(("V", j, b))
    js, bb = zip(*[pick(r.randrange(same + 1, n + same)) for _ in range(130)])
    out.append(("V[]", "[" + ",".join(js) + "]", vu(130) + b"".join(bb)))
    j, b = pick(128); out.append(("H", '{"v":%s,"w":[%s,%s]}' % (j, js[0], js[1]), b + b"\2" + bb[0] + bb[1]))
    vs = [wide_value(r, t) for t in ts]
    out.append(("W", "{" + ",".join('"f%d":%s' % (i, v[0]) for i, v in enumerate(vs)) + "}", b"".join(v[1] for v in vs)))
    return tx, out
BIG = [("int8[]", n) for n in (0, 1, 127, 128, 255, 256, 16383, 16384, 32767, 32768, 65535, 65536, 70000, 300000)] + [(k, n) for k in ("string", "bytes") for n in (127, 128, 16383, 16384, 65535, 65536, 2097151, 2097152)] + [("uint16[]", n) for n in (255, 256, 16384, 65536)] + [("R[]", n) for n in (128, 16384, 65537)]
def big_cases(r, n):
    d = new(); d["structs"] = [("R", "", [("o", "bool?")])]; t = bintext(d)
    return [("big", [t, k.encode(), k.encode(), str(m).encode()]) for k, m in sample(r, BIG, n)]
