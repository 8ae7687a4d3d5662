"""C09 names"""
AL = b".12345abcdefghijklmnopqrstuvwxyz"
def run(c):
    r = c.rng
    cases = []
    # texts
    T = [b"", b".", b"..", b"a", b"z", b".a", b"a.", b"a..b", b"a.b.c", b"zzzzzzzzzzzzj", b"zzzzzzzzzzzzk", b"zzzzzzzzzzzzz", b"............1", b"............j",
         b".............", b"..............", b"aaaaaaaaaaaaa.", b"aaaaaaaaaaaa.", b"eosio.token", b"A", b"6", b"0", b"a b", b"a-b", b"\x80", b"\xff", b"`", b"{", b"/", b"a\x00b"]
    for k in range(1, 15):          # every character at every position, and just outside the alphabet
        base = bytes(r.choice(AL) for _ in range(k - 1))
        for ch in list(AL) + list(b"06`{/A\x00\x80\xff\x2d"):
            T.append(base + bytes([ch]))
            if r.random() < .3: T.append(base + bytes([ch]) + bytes(r.choice(AL) for _ in range(r.randrange(0, 15 - k))))
    for _ in range(c.pick(500, 6000)):
        n = r.choice([1, 2, 5, 11, 12, 13, 13, 14, r.randrange(0, 20)])
        s = bytearray(r.choice(AL if r.random() < .8 else b".a1") for _ in range(n))
        if n and r.random() < .25: s[r.randrange(n)] = r.randrange(256)
        T.append(bytes(s))
    for t in T:
        cases += [("name_lenient", [t]), ("name_try_strict", [t])]
        op = r.choice(["name_strict", "name_ctor", "name_hash", "name_lenient_c", "name_capi"])
        cases.append((op, [t]))
        if all(32 <= b < 127 and b not in b'"\\' for b in t): cases.append(("name_from_json", [b'"' + t + b'"']))
    for _ in range(60): cases.append(("name_hash", [bytes(r.randrange(256) for _ in range(r.randrange(0, 40)))]))
    for b in range(256): cases.append(("name_digit", [bytes([b])]))
    # values: every single bit, every field alone, boundaries, random
    V = [0, 2**64 - 1] + [1 << i for i in range(64)] + [(1 << i) - 1 for i in range(64)]
    for p in range(13):
        for d in range(32 if p < 12 else 16):
            V.append(d << (64 - 5 * (p + 1)) if p < 12 else d)
    for _ in range(c.pick(500, 6000)):
        m = r.random()
        if m < .4: V.append(r.getrandbits(64))
        else:
            v = 0
            for p in range(13):
                d = r.choice([0, 0, 1, 31, r.randrange(32)])
                v |= (d << (64 - 5 * (p + 1))) if p < 12 else d % 16
            V.append(v)
    for v in V:
        b = v.to_bytes(8, "little")
        cases += [("name_str", [b]), ("name_parts", [b])]
        if r.random() < .3: cases.append((r.choice(["name_obj_str", "name_to_json", "name_capi_str"]), [b]))
        w = r.choice([v, (v + 1) % 2**64, v ^ (1 << r.randrange(64)), r.choice(V)])
        if r.random() < .4: cases.append(("name_cmp", [b, w.to_bytes(8, "little")]))
    # exhaustive small model: the spec's own theorems and its behaviours
    from core import VERIF
    em = c.mc("MC_Names", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS RoundTrip StrictIff Bounded PartsAgree OrderAgrees\nCONSTANT MaxTail = %d\n" % c.pick(1, 2))
    for x in em:
        t = bytes(x["text"])
        cases += [("name_lenient", [t]), ("name_try_strict", [t]), ("name_parts", [bytes(x["value"])])]
    c.conform(["names.cpp"], "T_Names", "NamesJudge", cases)
    return c.finish("names.tla behaviours enumerated by TLC (texts over a boundary alphabet at the head and around position 12..14) plus every character at every position, every bit/field value and seeded random texts and values; each distinct (operation, input) pair counts")
