"""C22 lossless binaries of containers and protocol messages"""
from zoo import *
import statics
def weights(t): return not any(weightless(y) for y in reach([t]))
def run(c):
    r = c.rng
    own = VEC + OPT + SEQ + TUP + VAR + ENUM + OWN
    ship = SHIP + ["block_info", "recurse", "vec<table_delta_v0>", "opt<block_position>"]
    types = list(dict.fromkeys(own + ship + statics.ROOTS))
    setup(types)
    us = units(types, ["z_tobin", "z_frombin", "z_cut", "z_reuse"])
    cases = []
    def add(t, w, w2):
        b = t.encode()
        cases.append(("z_tobin", [b, w]))
        cases.append(("z_frombin", [b, w + r.choice([b"", b"\0", b"\1\2"])]))
        cases.append(("z_reuse", [b, w, w2]))
        if any(kind(x) == "mne" for x in reach([t])):
            for k in range(max(0, len(w) - 12), len(w)): cases.append(("z_reuse", [b, w[:k], w2]))
            f = [x for _, x in fields(kind(t))] if kind(t) in STRUCTS else []
            if f and kind(f[-1]) == "mne": cases.append(("z_reuse", [b, b"".join(wire(r, x) for x in f[:-1]), w2]))
        if len(w) < c.pick(120, 400): cases.append(("z_cut", [b, w]))
        elif r.random() < .5: cases.append(("z_frombin", [b, w[:r.randrange(len(w))]]))
        for _ in range(c.pick(1, 3)):
            if weights(t): cases.append(("z_frombin", [b, near(r, w)]))
    for t in types:
        for _ in range(c.pick(3 if t in SHIP else 5, 60)): add(t, wire(r, t, odd=.3), wire(r, t))
    # every short text of bytes
    good = {}
    em = statics.model(c, 4, 6)
    for t, s, ok in em:
        if ok: good.setdefault(t, []).append(s)
    for t, s, ok in em if len(em) < c.pick(2500, 20000) else r.sample(em, c.pick(2500, 20000)):
        b = t.encode()
        cases.append(("z_frombin", [b, s + r.choice([b"", b"\0", b"\x80\1"])]))
        if ok and r.random() < .3: cases.append(("z_tobin", [b, s]))
        if r.random() < .3: cases.append(("z_reuse", [b, s, r.choice(good[t])]))
        if ok and r.random() < .2: cases.append(("z_cut", [b, s]))
    for s in ("var", "vec"): # many alternatives and elements
        for i in (0, 1, 127, 128, 129, 130): cases.append(("z_frombin", [many("uint8", 130).encode(), vu(i) + b"\7"]))
    for t in ("vec<int8>", "vec<string>", "deque<uint8>", "set<int8>", "list<string>", "map<int8,map<int8,int8>>", "vec<uint64>", "opq<vec<string>>" , "arrays"):
        if t not in types: continue
        for n in (1 << 32, (1 << 32) - 1, 1 << 31, 1 << 61, 1 << 63, (1 << 64) - 1, (1 << 35) - 1, 1 << 20): # counts beyond the input, of any width
            cases.append(("z_frombin", [t.encode(), vu(n) + b"\0" * 8])); cases.append(("z_frombin", [t.encode(), vu(n)[:-1] + b"\x80" * 3 + b"\0" + b"\1" * 9]))
    for s in STATUS: # names of transaction states
        for x in {s, s.upper(), s[:-1], s + "x", " " + s, s + "\0", s.replace("_", " "), s[1:], ""}: cases.append(("ship_status", [x.encode()]))
    for i in range(256): cases.append(("ship_status_name", [bytes([i])]))
    c.conform(us + ["ship.cpp"], "T_Zoo", "ZooJudge", cases)
    # opaque values, opened in any order
    setup(OPQ)
    us = units(OPQ, ["z_opq", "z_tobin", "z_frombin", "z_cut", "z_reuse"])
    cases = []
    for t in OPQ:
        x = parse(t)[2][0]; seq = kind(x) == "vec"
        for _ in range(c.pick(16, 300)):
            w = wire(r, x)
            if r.random() < .15: w = near(r, w)
            elif r.random() < .2: w += r.choice([b"\0", b"\1a", wire(r, x)])
            elif r.random() < .2: w = w[:r.randrange(len(w) + 1)]
            how = r.choice(["v", "s", "f", "f"])
            b = w if how == "v" else vu(len(w)) + w + r.choice([b"", b"\0", b"\1\1"])
            if how != "v" and r.random() < .1: b = b[:r.randrange(len(b))]
            ops = r.choice([b"eue", b"Ut", b"tuet", b"uuu"]) if not seq or r.random() < .3 else b"n" + bytes(r.choice(b"xxxXet") for _ in range(r.randrange(7))) + r.choice([b"", b"e", b"te", b"u", b"n"])
            cases.append(("z_opq", [t.encode(), how.encode(), b, ops]))
        for _ in range(c.pick(3, 30)): add(t, wire(r, t, odd=.3), wire(r, t))
    c.conform(us, "T_Zoo", "ZooJudge", cases)
    return c.finish("every text of up to %d bytes over {0,1,2,128,255} for %d types decoded by a byte-fed machine (TLC: stops where the declarative decoder does, lossless), replayed; %d types: containers of every kind, reflected structs, all messages and tables of the state history protocol: encoding, decoding (also of bits flipped, odd flags and counts), into objects that hold another value, every truncation; opaque values opened step by step in random orders" % (c.pick(4, 6), len(statics.ROOTS), len(types) + len(OPQ)))
