"""C20 JSON output is well-formed, escaped, valid UTF-8"""
from zoo import *
from abigen import new, bintext, jtext, many as amany
PIECES = [b'"', b"\\", b"\0", b"\x1f", b"\x7f", b"a", b"\xc2\x80", b"\xdf\xbf", b"\xe0\xa0\x80", b"\xed\x9f\xbf", b"\xee\x80\x80", b"\xef\xbf\xbf", b"\xf0\x90\x80\x80", b"\xf4\x8f\xbf\xbf",
          b"\xc2", b"\xe0\xa0", b"\xe0", b"\xf0\x90\x80", b"\xf0\x90", b"\xf0", b"\xc0\x80", b"\xc1\xbf", b"\xe0\x9f\xbf", b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xf0\x8f\xbf\xbf", b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\xff", b"\xfe", b"\x80", b"\xbf", b"\xf8\x88\x80\x80\x80", b"\n", b"\r\t", b"/", b"\\u0041", b"\xe2\x80\xa8", b"?"]
def odd(r, n=6): return b"".join(r.choice(PIECES) if r.random() < .8 else r.randbytes(1) for _ in range(r.randrange(n)))
def S(b): return vu(len(b)) + b
def run(c):
    r = c.rng
    types = ["vec<string>", "string", "quoting", "mixed", "derived", "twice", "holder", "keyed", "opt<string>", "var<string,int8>", "rich", "graph", "tree", "scalars", "empty", "base", "vec<vec<int8>>", "vec<point>", "vec<empty>", "opt<opt<int8>>", "opt<vec<int8>>", "vec<opt<uint8>>", "extended", "symbol", "asset", "symbol_code", "extended_asset", "bytes", "stream"] + SHIP + ["block_info", "vec<var<int8,string>>", "status"]
    types = [t for t in types if can_json(t)]
    setup(types)
    us = units(types, ["z_json"])
    cases = []
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Scanner Shape Reads Refuses\nCONSTANTS MaxLen = %d\n Alpha = {%s}\n"
    full = [9, 31, 34, 92, 65, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225, 237, 239, 240, 241, 244, 245, 255]
    few = [34, 65, 128, 143, 159, 191, 194, 224, 237, 240, 244]
    some = {}
    for n, al in ((3, full), (c.pick(4, 5), few)):
        for x in c.mc("MC_Text", cfg % (n, ", ".join(map(str, al))), env={"MC": "%d^%d" % (len(al), n)}): some[bytes(x)] = 1
    some = [x for x in sorted(some) if len(x) < 5 or r.random() < .3]
    r.shuffle(some)
    for i in range(0, len(some), 60): cases.append(("z_json", [b"vec<string>", vu(len(some[i:i + 60])) + b"".join(S(x) for x in some[i:i + 60])]))
    for _ in range(c.pick(60, 1500)):
        xs = [odd(r, r.choice([3, 8, 30])) for _ in range(20)]
        cases.append(("z_json", [b"vec<string>", vu(len(xs)) + b"".join(S(x) for x in xs)]))
        a = odd(r); m = [odd(r) for _ in range(r.randrange(4))]
        cases.append(("z_json", [b"quoting", S(a) + vu(len(m)) + b"".join(S(x) for x in m) + (b"\1" + S(odd(r)) if r.random() < .7 else b"\0") + b"\0" + S(odd(r))]))
    for n in (255, 1000, 3000): cases.append(("z_json", [b"string", S((odd(r, 40) * n + b"\xf0\x90")[:n])]))
    cases.append(("z_json", [b"string", S(bytes(range(256)) * 2)]))
    # what needs care, as far from the ends and from what goes before as counters of one byte can tell
    for n in (0, 1, 127, 128, 254, 255, 256, 257, 510, 511, 512, 513, 768):
        for x in r.sample([b"\xc3\xa9", b"\xf0\x90\x80\x80", b"\xe2\x80\xa8", b"\x01", b'"', b"\xff", b"\xe2\x80", b"\x7f", b"\\", b"\xf0\x9f\x98\x80"], c.pick(4, 10)):
            for m in r.sample([0, 1, 253, 254, 255, 256, 257, 258, 511, 512], c.pick(3, 10)): cases.append(("z_json", [b"string", S(b"a" * n + x + b"b" * m)]))
            m = r.randrange(300); cases.append(("z_json", [b"string", S(b"\xc3\xa9" * (n // 2) + b"c" * (n % 2) + x + b"\xe2\x80\xa8" * (m // 3) + b"d" * (m % 3))]))
    for t in types:
        for _ in range(c.pick(5, 80)): cases.append(("z_json", [t.encode(), wire(r, t, odd=.6)]))
    for sy in range(c.pick(40, 600)): # symbols of any bytes
        b = r.randbytes(1) + (odd(r, 5).replace(b"\0", b"") + bytes(7))[:7]
        cases.append(("z_json", [b"symbol", b])); cases.append(("z_json", [b"asset", r.randbytes(8) + b]))
    c.conform(us, "T_Zoo", "ZooJudge", cases)
    # through ABIs: strings, names of members and of alternatives
    cases = []
    for _ in range(c.pick(40, 800)):
        d = new(); names = []
        def name():
            while True:
                x = odd(r, 4)
                if x and b"\0" not in x and x not in names and x[-1:] not in b"]?$" and x not in [b.encode() for b in BUILTIN]: names.append(x); return x
        a, b, v, al = name(), name(), name(), name()
        fs = [odd(r, 4), odd(r, 5), odd(r, 3) + b"x"]
        if len(set(fs)) < 3: continue
        d["structs"] = [(a, "", [(fs[0], "string"), (fs[1], v + b"[]"), (fs[2], b + b"?")]), (b, "", [(odd(r), "int8")])]
        d["variants"] = [(v, [b, "string", al])]; d["types"] = [(al, "uint16")]
        alt = lambda: r.choice([b"\0\7", b"\1" + S(odd(r)), b"\2\1\2"])
        for _ in range(3):
            k = r.randrange(4)
            cases.append((r.choice(["dec", "decx"]), [bintext(d), a, S(odd(r)) + vu(k) + b"".join(alt() for _ in range(k)) + r.choice([b"\0", b"\1\5"])]))
    d = new(); d["structs"] = [("s", "", [("a", "string"), ("b", "string[]")])]
    for _ in range(c.pick(150, 3000)): 
        m = [odd(r, 12) for _ in range(r.randrange(8))]
        cases.append((r.choice(["dec", "dech", "decx"]), [jtext(d), b"s", S(odd(r, 20)) + vu(len(m)) + b"".join(S(x) for x in m)]))
    c.conform(["codec.cpp"], "T_Codec", "CodecJudge", cases, abis=True)
    return c.finish("every string of up to 3 bytes over 25 bytes around the borders of UTF-8 and up to %d over 11 (TLC: scanner against definition; written strings read back), replayed; longer mixes of cut, overlong and surrogate sequences with quotes and controls in every position: strings, symbols, members and alternatives of ABIs, %d C++ types compact and pretty" % (c.pick(4, 5), len(types)))
