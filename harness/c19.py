"""C19 reflected types behave like their generated ABI"""
import json as J
import core
from zoo import *
import statics
# ------------------------------------------------------------------ documents: ordered members, numbers as written
class Num(str): pass
class Raw(bytes): pass
def load(b):
    return J.loads(b.decode("utf8"), object_pairs_hook=lambda p: ("obj", p), parse_int=Num, parse_float=Num)
def text(r, d, ws=0.0):
    sp = lambda: r.choice([" ", "\n", "\t ", ""]) if r.random() < ws else ""
    if isinstance(d, Num): return str(d)
    if isinstance(d, tuple): return "{" + sp() + ",".join(sp() + string(r, k) + sp() + ":" + sp() + text(r, v, ws) + sp() for k, v in d[1]) + "}"
    if isinstance(d, list): return "[" + ",".join(sp() + text(r, v, ws) + sp() for v in d) + sp() + "]"
    if isinstance(d, str): return string(r, d)
    return {None: "null", True: "true", False: "false"}[d]
def string(r, s):
    o = '"'
    for ch in s:
        if ch in '"\\' or ord(ch) < 32: o += "\\u%04x" % ord(ch) if r.random() < .5 or ch not in '"\\' else "\\" + ch
        elif r.random() < .03 and ord(ch) < 0xd800: o += "\\u%04X" % ord(ch)
        else: o += ch
    return o + '"'
JUNK = lambda r: r.choice([None, True, Num("1"), Num("-1.5e3"), "", "x", [], ("obj", []), [Num("1"), [None]], ("obj", [("a", ("obj", [("b", [])]))])])
def paths(d, at=()):
    yield at
    if isinstance(d, tuple):
        for i, (k, v) in enumerate(d[1]): yield from paths(v, at + (i,))
    elif isinstance(d, list):
        for i, v in enumerate(d): yield from paths(v, at + (i,))
def get(d, at):
    for i in at: d = d[1][i][1] if isinstance(d, tuple) else d[i]
    return d
def put(d, at, v):
    if not at: return v
    i = at[0]
    if isinstance(d, tuple): return ("obj", [(k, put(x, at[1:], v) if j == i else x) for j, (k, x) in enumerate(d[1])])
    return [put(x, at[1:], v) if j == i else x for j, x in enumerate(d)]
def edit(r, d):
    ps = list(paths(d)); objs = [p for p in ps if isinstance(get(d, p), tuple)]
    k = r.choice(["shuffle", "drop", "unknown", "twice", "junk", "swap", "rename", "grow", "shrink", "nul"])
    if k in ("shuffle", "drop", "unknown", "twice", "rename") and objs:
        p = r.choice(objs); m = list(get(d, p)[1])
        if k == "shuffle": r.shuffle(m)
        elif k == "unknown": m.insert(r.randrange(len(m) + 1), (r.choice(["", "zz", "nam", "name2", "x ", "X", "type", "\u00e9"]), JUNK(r)))
        elif m:
            i = r.randrange(len(m))
            if k == "drop": del m[i]
            elif k == "twice": m.insert(r.randrange(len(m) + 1), (m[i][0], r.choice([m[i][1], m[r.randrange(len(m))][1]])))
            else: m[i] = (m[i][0] + r.choice([" ", "\0", "a"]) if r.random() < .5 else m[i][0][:-1], m[i][1])
        return put(d, p, ("obj", m))
    p = r.choice(ps); v = get(d, p)
    if k == "swap": # numbers as strings and back
        if isinstance(v, Num): return put(d, p, str(v))
        if isinstance(v, str) and re.match(r"^-?(0|[1-9]\d*)(\.\d+)?([eE]-?\d+)?$", v): return put(d, p, Num(v))
        if isinstance(v, bool): return put(d, p, r.choice(["true", "false", Num("1"), Num("0")]))
    if isinstance(v, list):
        if k == "grow": return put(d, p, v + [r.choice(v) if v else JUNK(r)])
        if k == "shrink" and v: return put(d, p, v[:-1])
    if k == "junk": return put(d, p, JUNK(r))
    return d
def run(c):
    r = c.rng
    types = SCALAR + VEC + OPT + VAR + OWN + statics.ROOTS
    deep = ["vec<vec<node>>", "vec<opt<node>>", "opt<opt<node>>", "opt<vec<node>>", "var<vec<node>,opt<tree>,vec<tree>>", "vec<var<node,int8>>", "opt<var<string,node>>", "mne<mne<int8>>", "mne<vec<int8>>", "opt<vec<opt<node>>>", "var<int8,var<node,bool>>", "opt<tree>", "vec<tree>", "mne<tree>"]
    types = [t for t in dict.fromkeys(types + deep) if can_abi(t) or can_parse(t)]
    setup(types)
    us = units(types, ["z_abi", "z_abijson", "z_via", "z_fromjson", "z_jreuse", "z_json"])
    first, cases = [], []
    for t in types:
        b = t.encode()
        if can_abi(t): cases.append(("z_abi", [b]))
        for _ in range(c.pick(6, 100)):
            w = wire(r, t, odd=.15)
            if OPS["z_abijson"](t): cases.append(("z_abijson", [b, w]))
            if OPS["z_via"](t): cases.append(("z_via", [b, w]))
        if can_parse(t):
            for _ in range(c.pick(5, 60)): first.append(("z_json", [b, wire(r, t)]))
    good = {}
    for t, s, ok in statics.model(c, 4, 6):
        if ok and t in types: good.setdefault(t, []).append(s)
    for t, ws in good.items():
        for s in ws if len(ws) < c.pick(25, 500) else r.sample(ws, c.pick(25, 500)):
            if OPS["z_via"](t): cases.append(("z_via", [t.encode(), s]))
            elif OPS["z_abijson"](t): cases.append(("z_abijson", [t.encode(), s]))
            if can_parse(t): first.append(("z_json", [t.encode(), s]))
    c.conform(us, "T_Zoo", "ZooJudge", cases)
    evs = c.conform(us, "T_Zoo", "ZooJudge", first)
    cases = []
    for e in evs:
        if e["st"] != "ok": continue
        try: d = load(e["out"][0])
        except Exception: continue
        for _ in range(c.pick(2, 6)):
            x = d
            for _ in range(r.choice([0, 1, 1, 2, 3])): x = edit(r, x)
            s = text(r, x, r.choice([0, 0, .5])).encode("utf8", "replace")
            if r.random() < .12: s = s[:r.randrange(len(s))] if s else s
            cases.append(("z_fromjson", [e["in"][0], s]))
            if r.random() < .5: cases.append(("z_jreuse", [e["in"][0], s, wire(r, e["in"][0].decode(), odd=.15)]))
    # unknown members as deep and as long as counters of one byte can tell
    pre, post = b'{"x":1,', b',"y":2}'
    for n in (1, 2, 126, 127, 128, 129, 253, 254, 255, 256, 257, 258, 511, 512, 513) + ((1024, 2000) if c.thorough() else ()):
        for o, m, cl in ((b"[", b"", b"]"), (b'{"q":', b"1", b"}"), (b'[{"q":', b"null", b"}]"), (b'[1,"x",', b"{}", b",2]"), (b'{"a":[],"b":', b"[]", b',"c":{}}')):
            if n > 300 and len(o) > 3 and not c.thorough(): continue
            k = n if o in (b"[", b'{"q":') else max(1, n // (2 if o == b'[{"q":' else 1))
            v = o * k + m + cl * k
            cases.append(("z_fromjson", [b"point", pre + b'"u":' + v + post]))
            if n % 3 == 0: cases.append(("z_fromjson", [b"point", pre + b'"u":' + v[:-1] + post]))
        w = b"[" + b",".join([b"0"] * n) + b"]"
        cases.append(("z_fromjson", [b"point", pre + b'"u":' + w + post])); cases.append(("z_fromjson", [b"point", b"{" + b",".join(b'"u%d":%d' % (i, i) for i in range(n)) + b',"x":1,"y":2}']))
    c.conform(us, "T_Zoo", "ZooJudge", cases)
    return c.finish("TLC: short binaries of %d types: the C++ codecs and those of the ABI mean the same, replayed; %d reflected types (structs with bases, vectors, optionals, variants, extensions, chain types): the ABI generated for each describes what the type is; values taken through the C++ binary and JSON and the generated ABI's codecs in both directions; documents with members shuffled, missing, unknown, repeated, numbers as strings, truncated" % (len(statics.ROOTS), len(types)))
