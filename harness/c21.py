"""C21 an ABI means the same in every format and survives export"""
import json
from abigen import *
import c05
ESC = {"\\": "\\\\", "\"": "\\\""}
class Raw(str): pass
def dump(r, v, key=None):
    """JSON text of a tree of dicts (lists of pairs), lists, strings and Raw, with optional escapes and blanks"""
    w = lambda: r.choice(["", "", "", " ", "\n", "\t ", "\r\n"])
    if isinstance(v, Raw): return str(v)
    if isinstance(v, int): return '"%d"' % v if r.random() < .3 else str(v)
    if isinstance(v, str):
        o = ""
        for ch in v:
            if ord(ch) < 32 or r.random() < .03: o += "\\u%04x" % ord(ch) if ord(ch) < 65536 else ch
            elif ch == "/" and r.random() < .3: o += "\\/"
            else: o += ESC.get(ch, ch)
        return '"' + o + '"'
    if isinstance(v, list): return "[" + w() + ",".join(dump(r, x) + w() for x in v) + "]"
    return "{" + w() + ",".join('"%s"' % k + w() + ":" + w() + dump(r, x) + w() for k, x in v["m"]) + "}"
def tree(x):
    if isinstance(x, dict): return {"m": [[k, tree(v)] for k, v in x.items()]}
    if isinstance(x, list): return [tree(v) for v in x]
    return x
def objects(t, out):
    if isinstance(t, dict):
        out.append(t)
        for _, v in t["m"]: objects(v, out)
    elif isinstance(t, list):
        for v in t: objects(v, out)
    return out
JUNK = ["null", "1", '"x"', "[]", "{}", "true", '[{"name":[1,null]}]', '{"a":{"b":[{}]}}', "-1.5e3", '"\\u0000"', '[["deep",{"x":[]}],{}]']
def harmless(r, t):
    """changes that keep the meaning: order of members, unknown members, empty sections left out"""
    for o in objects(t, []):
        if r.random() < .5: r.shuffle(o["m"])
        while r.random() < .25: o["m"].insert(r.randrange(len(o["m"]) + 1), [r.choice(["extra", "Name", "types2", "comment", "", "é", "namex", "nam"]), Raw(r.choice(JUNK))])
        for k, v in list(o["m"]):
            if (v == [] or v == "") and r.random() < .3: o["m"].remove([k, v])
def harmful(r, t):
    """one change that may alter or spoil the meaning"""
    o = r.choice(objects(t, []))
    k = r.randrange(6)
    if not o["m"]: return
    i = r.randrange(len(o["m"]))
    if k == 0: o["m"][i][1] = Raw(r.choice(JUNK))
    elif k == 1: o["m"].pop(i)
    elif k == 2: o["m"].insert(r.randrange(len(o["m"]) + 1), [o["m"][i][0], o["m"][i][1]])        # repeated
    elif k == 3: o["m"].append([o["m"][i][0], Raw(r.choice(JUNK))])
    elif k == 4: o["m"][i][0] = r.choice(["name", "type", "types", "fields", "base", "version", o["m"][i][0].upper(), o["m"][i][0] + " "])
    else: o["m"][i][1] = r.choice([[o["m"][i][1]], {"m": [["name", o["m"][i][1]]]}, "5", "x" * r.randrange(20)])
VERS = ["eosio::abi/1.0", "eosio::abi/1.1", "eosio::abi/1.", "eosio::abi/1.999", "eosio::abi/1.x y", "eosio::abi/1", "eosio::abi/2.0", "eosio::abi/", "", "eosio::abi/0.1", "eosio::abi/11.0", "Eosio::abi/1.1", " eosio::abi/1.1", "eosio::abi/1,1", "fosio::abi/1.1"]
def sections(r, d, wild=False):
    """the binary with filled sections the meaning does not depend on"""
    strs = lambda n: many([sv(r.choice(["", "text", "x" * 200, "\"é"])) for _ in range(r.randrange(n))])
    b = sv(d["version"]) + many([sv(n) + sv(t) for n, t in d["types"]]) + many([sv(n) + sv(x) + many([sv(y) + sv(t) for y, t in f]) for n, x, f in d["structs"]])
    b += many([nb(n) + sv(t) + sv(r.choice(["", "ricardian", "y" * 300])) for n, t in d["actions"]])
    b += many([nb(n) + sv(r.choice(["i64", "", "idx"])) + strs(3) + strs(3) + sv(t) for n, t in d["tables"]])
    b += many([sv("id") + sv("body") for _ in range(r.randrange(3))]) + many([bytes(r.randrange(256) for _ in range(8)) + sv("msg") for _ in range(r.randrange(3))])
    b += many([bytes(r.randrange(256) for _ in range(2)) + sv("\0" * r.randrange(5)) for _ in range(r.randrange(3))])
    if d["variants"] or r.random() < .5: b += many([sv(n) + many([sv(t) for t in ts]) for n, ts in d["variants"]])
    return b
def run(c):
    r = c.rng
    cases = []
    def add(fmt, data, q, op="abi_load"):
        if fmt != "bin" and 0 in data: return
        cases.append((op, [fmt.encode(), data] + q))
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Exports Reads\nCONSTANTS Steps = %d\nRich = %s\n"
    em = c.mc("MC_Abi", cfg % (2, "TRUE"))
    em3 = c.mc("MC_Abi", cfg % (3, "FALSE"), timeout=3000)
    def three(d, q, op):
        b = sections(r, d)
        hx = b.hex()
        hx = r.choice([hx, hx.upper(), "".join(r.choice([x, x.upper()]) for x in hx)])
        add("json", jtext(d), q, op); add("bin", b, q, op); add("hex", hx.encode(), q, op)
    for x in c.rng.sample(em, min(len(em), c.pick(120, 3000))) + r.sample(em3, min(len(em3), c.pick(120, 6000))):
        d = c05.from_model(x); three(d, queries(r, d, 4), r.choice(["abi_load", "abi_export"]))
    for _ in range(c.pick(110, 3000)):
        d = gen(r, wild=r.choice([0, 0, .03])); three(d, queries(r, d), r.choice(["abi_load", "abi_export", "abi_export"]))
    for kind in ("alias", "base", "aliasopt", "basealias"):
        for n in (2, 16, 31, 32):
            d = chain(r, n, kind, "mix"); ns = names_of(d); three(d, [b"t" + ns[0].encode(), b"t" + ns[-1].encode(), b"t" + ns[n // 2].encode() + b"$"], "abi_export")
    # JSON: what does not matter, and what might
    for _ in range(c.pick(200, 5000)):
        d = gen(r, wild=0); q = queries(r, d, 2)
        t = tree(jdict(d)); harmless(r, t)
        add("json", dump(r, t).encode(), q, r.choice(["abi_load", "abi_load", "abi_export"]))
        for _ in range(r.randrange(1, 3)): harmful(r, t)
        add("json", dump(r, t).encode(), q)
    for _ in range(c.pick(100, 2000)):   # malformed text
        d = gen(r, 2, 0); s = bytearray(dump(r, tree(jdict(d))).encode())
        k = r.randrange(4)
        if k == 0: s = s[:r.randrange(len(s) + 1)]
        elif k == 1: s[r.randrange(len(s))] = r.choice(b"{}[]\",:x \\\xff\x01")
        elif k == 2: s += r.choice([b" ", b"x", b"{}", b",", b"\n\n", b"]"])
        else: del s[r.randrange(len(s))]
        add("json", bytes(s), queries(r, d, 2))
    # versions
    for v in VERS:
        d = new(v); d["types"] = [("A", "int8")]
        three(d, [b"tA"], "abi_load")
    d = new(); d["types"] = [("A", "int8")]; j = jdict(d); del j["version"]; add("json", json.dumps(j).encode(), [b"tA"])
    for s in (b"", b"{}", b"[]", b"null", b'""', b'{"version":"eosio::abi/1.0"}', b'{"version":"eosio::abi/1.0","types":null}', b'{"version":"eosio::abi/1.0","variants":null}', b'{"version":"eosio::abi/1.0"} ', b'{"version":"eosio::abi/2.0","version":"eosio::abi/1.0"}', b'{"version":"eosio::abi/1.0","version":"eosio::abi/2.0"}', b'{"version":1}'): add("json", s, [b"tint8"])
    # binary: every truncation, trailing bytes, changed bytes
    for _ in range(c.pick(6, 60)):
        d = gen(r, 3, 0); b = sections(r, d); q = queries(r, d, 1)
        for n in range(len(b)) if len(b) < c.pick(220, 3000) else r.sample(range(len(b)), c.pick(200, 2500)):
            if r.random() < .8: add("bin", b[:n], q)
            else: add("hex", b[:n].hex().encode(), q)
        add("bin", b + b"\0" * r.randrange(9), q); add("bin", b + bytes(r.randrange(256) for _ in range(5)), q)
    for _ in range(c.pick(400, 8000)):
        d = gen(r, 3, 0); b = bytearray(sections(r, d)); q = queries(r, d, 1)
        for _ in range(r.choice([1, 1, 2])):
            i = r.randrange(len(b)) if r.random() < .7 else r.randrange(len(d["version"]) + 1, len(b))
            b[i] = r.choice([0, 1, 2, 127, 128, 255, b[i] ^ 1 << r.randrange(8), r.randrange(256)])
        add("bin", bytes(b), q)
    b = bintext(new(), "min")
    for t in (b"\xff\xff\xff\xff\x0f", b"\x80\x80\x80\x80\x00", b"\x80\x80\x80\x80\x10", b"\x80" * 6, b"\x80"): # counts
        n = len(b) - 7
        for i in range(8): add("bin", b[:n + i] + t + b[n + i + 1:], []); add("bin", b[:n + i] + t, [])
    # hex
    x = bintext(gen(r, 2, 0)).hex().encode()
    for s in (x + b"0", x[:-1], x + b"zz", b"0x" + x, b" " + x, x + b" ", x.replace(b"a", b"g", 1), b"", b"0", x[:20] + b":" + x[21:]): add("hex", s, [])
    c.conform(["abi.cpp"], "T_Abi", "AbiJudge", cases)
    return c.finish("definitions enumerated by TLC (resolution kept by export) and random ones, each in JSON, binary and hex; loaded, exported and reloaded; JSON with shuffled, repeated, unknown, missing and mistyped members; binaries truncated at every byte, extended and altered")
