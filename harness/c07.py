"""C07 hostile input is answered"""
from cases import *
import zoo as Z
from zoo import kind, reach, can_parse
ALLB = BUILTIN
COUNTS = [(1 << 32) - 1, 1 << 31, (1 << 31) - 1, 1 << 30, 1 << 28, 1 << 24, 100000000, 1 << 20, 65536, (1 << 35) - 1, 1 << 63, (1 << 64) - 1]
def enc(e, intern): return {"id": e["id"], "op": e["op"], "st": e["st"], "mem": e["mem"], "size": sum(map(len, e["in"])), "got": sum(map(len, e["out"]))}
def defs(r, c):
    """hostile definitions: (format, data, type to ask for)"""
    out = []
    J = lambda d, t=b"a": out.append((b"json", jtext(d) if isinstance(d, dict) else d, t))
    B = lambda b, t=b"a": (out.append((b"bin", b, t)), out.append((b"hex", b.hex().encode(), t)))
    v = b'{"version":"eosio::abi/1.1",'
    N = 100000
    # deep texts, closed or not, at every place
    for o, cl in ((b"[", b"]"), (b'{"a":', b"}"), (b'[{"a":', b"}]")):
        for n in (1000, N):
            for put in (b"%s", v + b'"types":%s}', v + b'"zz":%s}', v + b'"structs":[{"name":%s}]}', v + b'"structs":[{"zz":%s}]}', v + b'"abi_extensions":[%s]}'):
                J(put.replace(b"%s", o * n + b"1" + cl * n)); 
            J(v + b'"types":' + o * n)
    J(v + b'"structs":[' + b'{"name":"a","base":"","fields":[' * N)
    for s in (b"", b" ", b"{", b"[", b"\"", b"{\"", b"\\", b"\xff", b"\xe6", b'"\xe6', b'{"\xf0', b'{"version":"\xf0', b'{"version":"\\u', b'{"version":"\\ud800\\u', b'{"version":"\\ud8', b'{"version":-', b'{"version":1e', b'{"version":t', b'{"version":nul', b'{"version"', b'{"version":', b'{,', b'{"version":"eosio::abi/1.1","types":[{"new_type_name":"\xf0\x90'): J(s)
    # long chains, both ways round; rings; one name many times
    for n in (31, 32, 33, 34, 1000, 20000):
        for k in ("alias", "base", "aliasopt", "basealias"):
            for order in ("up", "down"):
                if n >= 1000 and k == "base" and order != "down": continue # (inherited members: see below)
                d = chain(r, n, k, order); t = min(x[0] for x in d["types"] + d["structs"])
                B(bintext(d), t.encode()); J(d, t.encode())
    for suf in ("[]", "?", "$", "[]?", "?[]"):
        for n in (1, 2, 40, N):
            d = new(); d["types"] = [("a", "int8" + suf * n)]; J(d); B(bintext(d))
            d = new(); d["types"] = [("a", "a" + suf)]; J(d)
            d = new(); d["structs"] = [("a", "", [("x", "a" + suf)])]; J(d)
            out.append((b"json", jtext(new()), ("int8" + suf * n).encode()))
    d = new(); d["types"] = [("a", "int8")] * 2000; J(d); B(bintext(d))
    d = new(); d["variants"] = [("a", ["int8"] * 5000)]; J(d); B(bintext(d))
    d = new(); d["structs"] = [("a", "a", [])]; J(d); d = new(); d["structs"] = [("a", "b", []), ("b", "a", [])]; J(d)
    d = new(); d["structs"] = [("a", "", [("f", "int8")] * 20000)]; J(d); B(bintext(d))
    d = new(); d["actions"] = [("", "")] * 20000; J(d); B(bintext(d))
    d = new(); d["actions"] = [("x", "y" * 100000)]; d["tables"] = [("x", "a" * 100000)]; J(d); B(bintext(d))
    d = new(); d["types"] = [("", ""), ("a", ""), ("", "a")]; J(d); B(bintext(d))
    d = new(); d["structs"] = [("", "", [("", "")]), ("a", "", [("", "int8"), ("", "a?")])]; J(d); B(bintext(d))
    # counts and lengths that the rest does not hold, in every section
    d = new(); d["types"] = [("a", "int8")]; d["structs"] = [("s", "", [("f", "int8")])]; d["actions"] = [("x", "s")]; d["tables"] = [("x", "s")]; d["variants"] = [("v", ["int8"])]
    b = bintext(d)
    for i in range(15, len(b)):
        for n in r.sample(COUNTS, 2): B(b[:i] + vu(n) + b[i + 1:])
    head = sv("eosio::abi/1.1")
    for k in range(9):
        for n in COUNTS: out.append((b"bin", head + b"\0" * k + vu(n), b"a")); out.append((b"bin", head + b"\0" * k + vu(n) + b"\0" * 4000, b"a"))
    for n in COUNTS: out.append((b"bin", vu(n), b"a")); out.append((b"bin", vu(n) + b"eosio::abi/1.1", b"a"))
    for k in range(len(b)): out.append((b"bin", b[:k], b"a")) if k % 3 == 0 else None
    out.append((b"hex", b"0" * 20001, b"a")); out.append((b"hex", b"zz", b"a")); out.append((b"hex", b"0\xff", b"a")); out.append((b"bin", b"\xff" * 20000, b"a")); out.append((b"bin", b"\x80" * 20000, b"a")); out.append((b"bin", bytes(20000), b"a"))
    # random definitions, damaged
    for _ in range(c.pick(60, 2500)):
        d = gen(r, wild=.2)
        b = bytearray(bintext(d)); t = bytearray(jtext(d))
        for _ in range(r.choice([1, 1, 3, 8])):
            b[r.randrange(len(b))] = r.choice([0, 1, 127, 128, 255, r.randrange(256)]); i = r.randrange(len(t)); t[i:i + r.choice([0, 1, 1, 5])] = r.choice([b"", b'"', b"{", b"[", b"}", b"]", b",", b":", b"\\", b"\xe6", b"\0", b"null", b"1", bytes([r.randrange(256)])])
        out.append((b"bin", bytes(b), b"a")); out.append((b"json", bytes(t).replace(b"\0", b""), b"a"))
        if r.random() < .3: out.append((b"json", bytes(t)[:r.randrange(len(t))].replace(b"\0", b""), b"a"))
    return out
STRINGS = [b"", b"1", b"-", b"+", b".", b"e", b"1e", b"1e999999999999", b"-1e-999999999999", b"9" * 100000, b"0." + b"0" * 100000 + b"1", b"1" * 400 + b"." + b"1" * 400, b"0" * 100000, b"nan", b"inf", b"1.", b".1", b"0x1p3", b"A" * 100000, b" " * 100000, b"\\u0000", b"\\ud83d", b"\\ude00", b"a" * 100001, b"EOS", b"EOS1", b"EOS" + b"1" * 100000, b"EOS" + b"z" * 9000, b"PUB_K1_", b"PUB_R1_" + b"z" * 20000, b"PUB_WA_" + b"z" * 2000, b"PUB_WA_" + b"1" * 1000, b"PUB_", b"SIG_K1_" + b"z" * 20000, b"SIG_WA_" + b"z" * 2000, b"SIG_WA_", b"SIG_", b"PVT_K1_" + b"z" * 20000, b"PVT_R1_", b"PVT_", b"5" * 51, b"5" * 5000,
           b"2020-01-01T00:00:00", b"2020-01-01T00:00:00." + b"9" * 10000, b"9999-99-99T99:99:99", b"0000-00-00T00:00:00", b"-1-1-1T1:1:1", b"2020", b"2020-", b"2020-01-01T", b"1970-01-01T00:00:00.000Z", b"4,EOS", b"256,EOS", b"4294967300,EOS", b"4,", b",", b",EOS", b"4,EOSEOSEOS", b"1.0000 EOS", b"1." + b"0" * 300 + b" EOS", b"99999999999999999999 EOS", b"1.0000", b"1 ", b" EOS", b"-. EOS", b"- EOS", b"1.0000 EOSEOSEOSEOS", b"\xf0\x90\x80\x80", b"eosio.tokenx", b"............."]
def run(c):
    r = c.rng
    cases, known = [], {}
    for f, d, t in defs(r, c):
        if f != b"bin": d = d.replace(b"\0", b"")
        cases.append(("h_load", [f, d, t]))
        if f != b"hex" and r.random() < .5: cases.append(("h_def", [f, d]))
    # texts for loaded types
    plain = new(); plain["structs"] = [("s", "", [("a", "string"), ("b", "s?"), ("c", "s[]"), ("v", "v")])]; plain["variants"] = [("v", ["int8", "s", "v", "string"])]; plain["structs"].append(("e", "", [])); plain["structs"].append(("x", "", [("a", "x[]$")]))
    pt = jtext(plain); P = lambda op, t, s: cases.append((op, [b"json", pt, t, s]))
    N = 100000
    for op in ("h_ord", "h_reo"):
        for t in (b"s", b"v", b"s[]", b"s?", b"int8", b"string", b"bytes", b"x", b"nope", b"", b"s" + b"[]" * N, b"s" * N, b"int8" + b"?" * N, b"int8$" * 2):
            for o, cl in ((b"[", b"]"), (b'{"a":', b"}"), (b'{"c":[', b"]}"), (b'["v",', b"]"), (b'["s",{"v":', b"}]"), (b'{"zz":', b"}")):
                n = r.choice([200, 5000, N]) if r.random() < .4 else r.choice([126, 127, 128, 129])
                P(op, t, o * n + cl * n); P(op, t, o * n)
                if r.random() < .3: P(op, t, b'{"a":"x","zz":' + o * n + cl * n + b"}")
            for s in (b"", b"{", b"[", b'"', b'"\xe6', b'"\xf0\x90', b'"\xc3', b'{"\xe6', b'"\\', b'"\\u', b'"\\u00', b'"\\ud800', b'"\\ud800\\', b"-", b"1.", b"1e", b"t", b"nul", b'"' + b"\\u0041" * 50000 + b'"', b'"' + b"0" * N + b'"', b"9" * N, b"-" * 50, b" " * N, b"[" + b"1," * N, b"[" + b"[]," * 20000 + b"[]]", b"{" + b'"a":1,' * 20000 + b'"a":1}'): P(op, t, s)
        for b in ALLB:
            for s in r.sample(STRINGS, c.pick(9, len(STRINGS))):
                P(op, b.encode(), b'"' + s + b'"')
                if r.random() < .3: P(op, b.encode(), s)
    # binaries
    for t in [b"s", b"v", b"x", b"s[]", b"v[]", b"string", b"string[]", b"bytes", b"bytes[]", b"int8[]", b"float128[]", b"s?", b"nope", b"public_key", b"signature", b"private_key[]"] + [b.encode() for b in ALLB]:
        for n in r.sample(COUNTS, c.pick(4, len(COUNTS))):
            for tail in (b"", b"\0" * 9, b"\1" * 5000): P("h_bin", t, vu(n) + tail); P("h_bin", t, b"\1" + vu(n) + tail)
        for n in (127, 128, 129, N):
            P("h_bin", t, b"\1" * n); P("h_bin", t, b"\2" * n); P("h_bin", t, b"\0\1" * n); P("h_bin", t, b"\0" * n); P("h_bin", t, b"\xff" * n); P("h_bin", t, b"\x80" * n)
        for _ in range(c.pick(4, 60)): P("h_bin", t, r.randbytes(r.randrange(60))); P("h_hex", t, r.choice([r.randbytes(9).hex().encode(), b"0" * r.randrange(40), b"g", b"0" * N, b"\xff\xff", b"00 00"]))
    for k in "SOVX":
        for n in (127, 128, 129, 1000, 30000):
            d, t, s, b = nest(n, k); j = jtext(d)
            for op, x in (("h_ord", s.encode()), ("h_reo", s.encode()), ("h_bin", b), ("h_bin", b + b"\1" * 5)): cases.append((op, [b"json", j, t.encode(), x]))
    # elements of no size: few of them are legal, a count is not bounded by the input
    for t in (b"e[]", b"e?", b"x"): P("h_bin", t, vu(1000)); P("h_bin", t, b"\1")
    cases.append(("h_bin", [b"json", pt, b"e[]", vu((1 << 32) - 1)])); known[len(cases) - 1] = "zero-size-elements"
    # every structure repeats the members of its bases
    d = new(); d["structs"] = [("s%05d" % i, "s%05d" % (i - 1) if i else "", [("f", "int8")]) for i in range(4000)]
    cases.append(("h_load", [b"bin", bintext(d), b"s00005"])); known[len(cases) - 1] = "inherited-members"
    def key(e): return known.get(e["id"])
    c.conform(["hostile.cpp"], "T_Hostile", "HostileJudge", cases, enc=enc, per_op=12, key=key)
    # C++ types
    types = Z.VEC + Z.SEQ + Z.OPT + Z.TUP + Z.VAR + Z.OWN + Z.SHIP + ["recurse"] + [b for b in Z.SCALAR]
    types = [t for t in types if not any(Z.weightless(x) for y in [t] for x in reach([y]) if kind(y) in ("vec", "list", "deque", "set", "map"))]
    us = Z.units(types, ["z_frombin", "z_fromjson"])
    cases, known = [], {}
    for t in types:
        b = t.encode()
        for _ in range(c.pick(4, 40)):
            w = Z.wire(r, t)
            i = r.randrange(len(w) + 1)
            cases.append(("z_frombin", [b, w[:i] + vu(r.choice(COUNTS)) + w[i + 1:]]))
            cases.append(("z_frombin", [b, r.choice([vu(r.choice(COUNTS)), b"\1" + vu(r.choice(COUNTS)), w[:i]]) + r.choice([b"", bytes(50), b"\1" * 50, b"\x80" * 50])]))
        if can_parse(t):
            for s in r.sample(STRINGS, c.pick(5, 30)): cases.append(("z_fromjson", [b, r.choice([b'"' + s + b'"', s, b'["' + s + b'"]', b'{"a":"' + s + b'"}', b'[["' + s])]))
            for n in (300, 100000):
                o = r.choice([b"[", b'{"zz":', b'{"a":', b'[{"x":'])
                cases.append(("z_fromjson", [b, r.choice([o * n, b'{"zz":' + o * n])]))
            cases.append(("z_fromjson", [b, r.choice([b'"\xe6', b'"\xf0', b'["\xe2', b'{"\xf0\x90', b'{"a":"\xe2'])]))
    # deep values of recursive C++ types
    for n in (10, 100): cases.append(("z_frombin", [b"tree", b"\1\1" * n + b"\1\0\0" + b"\0" * n])); cases.append(("z_fromjson", [b"tree", b'{"v":1,"kids":[' * n + b"]}" * n]))
    for n in (20000,):
        cases.append(("z_frombin", [b"tree", b"\1\1" * n + b"\1\0\0" + b"\0" * n])); known[len(cases) - 1] = "recursive-types"
        cases.append(("z_fromjson", [b"tree", b'{"v":1,"kids":[' * n + b"]}" * n])); known[len(cases) - 1] = "recursive-types"
    for n in (20, 30000): # index, id, status, cpu, net words, elapsed, net, scheduled, no actions, no delta, no except, no error code, a failed trace ...
        cases.append(("z_frombin", [b"recurse", (bytes(1 + 32 + 1 + 4 + 1 + 8 + 8 + 1 + 1 + 3) + b"\1") * n + bytes(1 + 32 + 1 + 4 + 1 + 8 + 8 + 1 + 1 + 3) + bytes(1 + n + 1)])); known[len(cases) - 1] = "recursive-types" if n > 20 else None
    def key(e): return known.get(e["id"]) if "stack-overflow" in e["stderr"] else None
    c.conform(us, "T_Hostile", "HostileJudge", cases, enc=enc, per_op=12, key=key)
    return c.finish("definitions, documents, strings and binaries made to exhaust: depth up to 10^5, counts and lengths up to 2^64-1 in every place, chains of 20000, rings, texts cut anywhere, 10^5 byte strings for every scalar type, at every entry point of the C interface and for %d C++ types; an answer within 12 s and memory of at most 1 MB + 400 bytes per byte in and out" % len(types))
