"""C06 contexts as state machines"""
from cases import *
OPS = ["set_abi", "set_abi_bin", "set_abi_hex"]
def enc(e, intern):
    """session -> trace line (several threads: one after the other, on contexts of different numbers)"""
    calls, answers = [], []
    a = e["in"]
    groups = [(0, a)] if e["op"] != "threads" else []
    if not groups:
        at = 1
        for t in range(len(a[0]) // 2): n = a[0][2 * t] + 256 * a[0][2 * t + 1]; groups.append((t, a[at:at + n])); at += n
    every = 16 if e["op"] != "threads" else 16 // len(groups)
    for g, i, a in [(g, i, b) for g, b in groups for i in range(0, len(b), 5)]:
        op = a[i].decode()
        x = {"op": op, "grp": g, "ctx": a[i + 1][0] + (g * every if a[i + 1][0] < 16 else 0), "contract": a[i + 2], "a": a[i + 3], "b": a[i + 4]}
        if op in OPS: x["ref"] = intern((a[i], a[i + 3])); x["a"] = b""
        if op in ("action", "table"): x["a"] = a[i + 3]
        calls.append(x)
    outs = e["out"] if e["st"] == "ok" else []
    step = 1 if e["op"] == "session" else 2
    for n, o in enumerate(outs[::step]):
        look = []
        if step == 2:
            l = outs[2 * n + 1]; p = 0
            while p < len(l): m = l[p + 1] + 256 * l[p + 2]; look.append([l[p] + calls[n]["grp"] * every * (e["op"] == "threads"), l[p + 3:p + 3 + m]]); p += 3 + m
        answers.append({"ok": bool(o[0]), "err": bool(o[1]), "out": o[2:], "look": look})
    answers += [{"ok": False, "err": False, "out": b"", "look": []}] * (len(calls) - len(answers))
    return {"id": e["id"], "st": e["st"], "calls": calls, "answers": answers}
A1, A2, A3 = b"\1" + bytes(7), nb("eosio.token"), b"\xff" * 8
def load(r, k, at, d, fmt=None, spoiled=None):
    fmt = fmt or r.choice(OPS)
    data = jtext(d) if fmt == "set_abi" else bintext(d, "min")
    if spoiled: data = spoiled(data)
    if fmt == "set_abi_hex": data = data.hex().encode() if r.random() < .5 else data.hex().upper().encode()
    if fmt != "set_abi_bin": data = data.replace(b"\0", b"")
    return [fmt.encode(), bytes([k]), at, data, b""]
def abis():
    """definitions that give the same names different meanings"""
    x = new(); x["structs"] = [("S", "", [("a", "int8"), ("b", "T")])]; x["types"] = [("T", "int16")]; x["actions"] = [("act", "S")]; x["tables"] = [("tab", "S")]
    y = new(); y["structs"] = [("S", "", [("a", "string")])]; y["variants"] = [("T", ["int8", "S"])]; y["actions"] = [("act", "T"), ("other", "S")]; y["tables"] = [("act", "T")]
    z = new(); z["types"] = [("S", "int64"), ("T", "U")]; z["structs"] = [("U", "", [("a", "S")])]; z["actions"] = [("act", "nope")]
    bad = new(); bad["structs"] = [("S", "", [("a", "missing")])]
    ring = new(); ring["types"] = [("S", "T"), ("T", "S")]
    old = new("eosio::abi/2.0"); old["types"] = [("S", "int8")]
    return [x, y, z], [bad, ring, old]
DOCS = {b"S": [b'{"a":1,"b":2}', b'{"b":2,"a":1}', b'{"a":"x"}', b'5', b'{"a":"5"}'], b"T": [b"7", b'["S",{"a":"q"}]', b'["int8",3]', b'{"a":1}'], b"int8": [b"1", b"300"], b"S[]": [b'[{"a":1,"b":2}]', b"[]", b"[4]"], b"T?": [b"null", b"1"], b"nope": [b"1"], b"": [b"", b"1"], b"S$?": [b"1"], b"T$": [b"7"]}
# type names that no ABI gives a meaning: they have to be refused however often they are asked for
ODD = [b"S[][]", b"int8[]?", b"int8?[]", b"int8??", b"S$$", b"S$[]", b"S?$", b"int8[]$", b"T[]?", b"[]", b"?", b"$", b"S [ ]", b"int8[2]"]
DOCS.update({t: [b"[[1]]", b"[1]", b"null", b"1", b'[{"a":1,"b":2}]', b"[]"] for t in ODD})
BINS = [b"\1\2\0", b"\1x", b"\0", b"\5" + bytes(7), b"", b"\1\1x", b"\2\1\2\0\3\4\0"]
def probes(r, k, at, n):
    out = []
    for _ in range(n):
        m = r.randrange(8)
        t = r.choice(list(DOCS))
        if t in ODD and r.random() < .8:
            for _ in range(r.randrange(1, 4)):
                out += [r.choice([b"json_to_bin", b"json_to_bin_reorderable"]), bytes([k]), at, t, r.choice(DOCS[t])] if r.random() < .5 else [b"bin_to_json", bytes([k]), at, t, r.choice(BINS)]
            continue
        if m < 3: out += [r.choice([b"json_to_bin", b"json_to_bin_reorderable"]), bytes([k]), at, t, r.choice(DOCS[t]) if r.random() < .85 else r.choice([b"{", b"[1,", b"x", b'{"a":1'])]
        elif m < 5:
            b = r.choice(BINS); h = r.random() < .5
            out += [b"hex_to_json" if h else b"bin_to_json", bytes([k]), at, t, (b.hex().encode() if r.random() < .9 else b"0g") if h else b]
        elif m < 7: out += [r.choice([b"action", b"table"]), bytes([k]), at, nb(r.choice(["act", "tab", "other", "zz"])), b""]
        else: out += [b"bin", bytes([k]), bytes(8), b"", b""]
    return out
def run(c):
    r = c.rng
    cases = []
    good, bad = abis()
    # the model's histories: loads, failures, queries of two contracts in two contexts
    lib = [("set_abi", jtext(good[0])), ("set_abi_bin", bintext(good[1])), ("set_abi_hex", bintext(good[2]).hex().encode()), ("set_abi", jtext(bad[0])), ("set_abi_bin", bintext(bad[1])), ("set_abi_hex", bintext(bad[2]).hex().encode())]
    calls = []
    for k, at in ((0, A1), (0, A2), (1, A1)):
        for i, (f, d) in enumerate(lib):
            if k == 0 and at == A1 or i in (1, 3): calls.append({"op": f, "ctx": k, "contract": at, "a": b"", "b": b"", "ref": i + 1})
        calls.append({"op": "json_to_bin", "ctx": k, "contract": at, "a": b"S", "b": b'{"a":1,"b":2}', "ref": 0})
        if at == A1 and k == 0:
            calls.append({"op": "json_to_bin_reorderable", "ctx": k, "contract": at, "a": b"T[]", "b": b'[["S",{"zz":1,"a":"q"}]]', "ref": 0})
            calls.append({"op": "json_to_bin", "ctx": k, "contract": at, "a": b"S$", "b": b'{', "ref": 0})
            calls.append({"op": "json_to_bin", "ctx": k, "contract": at, "a": b"int8?[]", "b": b"[null,7]", "ref": 0})
            calls.append({"op": "action", "ctx": k, "contract": at, "a": nb("act"), "b": b"", "ref": 0})
            calls.append({"op": "table", "ctx": k, "contract": at, "a": nb("act"), "b": b"", "ref": 0})
            calls.append({"op": "new", "ctx": k, "contract": bytes(8), "a": b"", "b": b"", "ref": 0})
    from core import jbytes
    fd, p = tempfile.mkstemp(prefix="verif_setup_", suffix=".json"); os.close(fd)
    json.dump(jbytes({"abis": [(f.encode(), d) for f, d in lib], "calls": calls}), open(p, "w"))
    try:
        for n in c.pick((1, 2, 3), (1, 2, 3, 4)):
            em = c.mc("MC_Context", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS ByHistory BinByHistory Lawful\nCONSTANT MaxCalls = %d\n" % n, env={"SETUP": p, "MC": str(n)}, timeout=3000)
            for h in (em if n < 3 else sample(r, em, c.pick(700, 15000))):
                s = []
                for i in h:
                    x = calls[i - 1]; s += [x["op"].encode(), bytes([x["ctx"]]), x["contract"], lib[x["ref"] - 1][1] if x["ref"] else x["a"], x["b"]]
                s += [b"bin", b"\0", bytes(8), b"", b""]
                for k, at in ((0, A1), (0, A2), (1, A1)): s += probes(r, k, at, 2)
                cases.append(("session", s))
    finally: os.unlink(p)
    # long random sessions, with random ABIs among the loaded ones
    for _ in range(c.pick(120, 2500)):
        s = []; ds = {}
        more = rnd_abis(c, 1)
        for _ in range(r.randrange(5, 40)):
            k = r.choice([0, 0, 0, 1, 2, 255]); at = r.choice([A1, A1, A2, A3])
            m = r.random()
            if m < .22:
                d = r.choice(good + more); ds[k, at] = d
                if r.random() < .3: s += load(r, k, at, d, spoiled=lambda b: spoil(r, b) if r.random() < .5 else b[:r.randrange(len(b))])
                else: s += load(r, k, at, d)
            elif m < .32: s += load(r, k, at, r.choice(bad))
            elif m < .36: s += [r.choice([b"set_abi", b"set_abi_bin", b"set_abi_hex"]), bytes([k]), at, r.choice([b"", b"x", b"{}", b"00", b"{\"version\":\"eosio::abi/1.1\"", b"[]", b"\"\""]), b""]
            elif m < .39 and k < 3: s += [b"new", bytes([k]), bytes(8), b"", b""]
            elif m < .45: s += r.choice([[b"name_to_string", bytes([k]), r.randbytes(8), b"", b""], [b"string_to_name", bytes([k]), bytes(8), r.choice([b"", b"eosio", b"a.b", b"toolongnamefor", b"UP"]), b""]])
            elif m < .65 and (k, at) in ds:
                d = ds[k, at]; t = r.choice(roots(r, d, 1)); v = fitting(r, d, t); b = fitting_bin(r, d, t, False)
                if v is not None:
                    s += [r.choice([b"json_to_bin", b"json_to_bin_reorderable"]), bytes([k]), at, t.encode(), render(r, v if r.random() < .7 else mutate(r, v)).replace(b"\0", b"")]
                if b is not None and not endless(Types(d), t): s += [b"bin_to_json", bytes([k]), at, t.encode(), b if r.random() < .7 else hurt(r, b)]
            else: s += probes(r, k, at, r.randrange(1, 4))
        s += [b"bin", b"\0", bytes(8), b"", b""] + probes(r, 0, A1, 3)
        cases.append(("session", s))
    c.conform(["context.cpp"], "T_Context", None, cases, enc=enc)
    c.notes["calls"] = sum(len(x[1]) // 5 for x in cases)
    return c.finish("every history of up to %d calls out of 21 (loads of good and bad ABIs in three formats, conversions, queries; two contexts, two contracts) in the model and a sample of the longest on the code, each followed by probes of every contract and context; long random sessions on three contexts and the null one with random ABIs, spoiled loads, failing calls" % c.pick(3, 4))
