"""C10 integers"""
TY = {"int8": (1, 1), "uint8": (1, 0), "int16": (2, 1), "uint16": (2, 0), "int32": (4, 1), "uint32": (4, 0), "int64": (8, 1), "uint64": (8, 0), "int128": (16, 1), "uint128": (16, 0), "varuint32": (4, 0), "varint32": (4, 1)}
def gen(c, types):
    r = c.rng
    cases = []
    def text(n, t): # one type, one text, both spellings and all paths
        nb = n.encode()
        q = b'"' + t + b'"'
        m = r.random()
        cases.append(("int_from_json", [nb, q]))
        if m < .5: cases.append(("int_from_json", [nb, t]))
        if m < .35: cases.append(("int_abi", [nb, q if r.random() < .5 else t]))
    for n, (w, s) in types.items():
        lo, hi = (-(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1) if s else (0, (1 << (8 * w)) - 1)
        bnd = {lo, hi, 0, 1, -1, 10, 9, 99, 100, 127, 128, 255, 256}
        for d in range(1, 12):
            for x in (lo, hi): bnd |= {x - d, x + d, x * 10, x * 10 + d, x // 10, x // 10 + d}
        for k in range(1, 8 * w + 3): bnd |= {1 << k, (1 << k) - 1, -(1 << k), -(1 << k) - 1}
        for k in range(1, 42): bnd |= {10 ** k, 10 ** k - 1, -10 ** k}
        for x in sorted(bnd):
            text(n, b"%d" % x)
            if abs(x) <= 10 * (1 << (8 * w)) and lo <= x <= hi: cases.append(("int_to_json", [n.encode(), (x % (1 << 8 * w)).to_bytes(w, "little")]))
        top = str(hi)
        for i in range(len(top)):       # every digit of the largest value raised or lowered by one
            for d in (-1, 1):
                k = int(top[i]) + d
                if 0 <= k <= 9: text(n, (top[:i] + str(k) + top[i + 1:]).encode()); text(n, b"-" + (top[:i] + str(k) + top[i + 1:]).encode())
        for t in (b"", b"-", b"--1", b"+1", b" 1", b"1 ", b"1.0", b"1.", b"0x1", b"1e0", b"-0", b"00", b"007", b"-007", b"000000000000000000000000000000000000000000000000001", b"1a", b"a", b"1-", b"1/", b"1:", b"\xb1", b"1,2"): text(n, t)
        for _ in range(c.pick(80, 1500)):
            x = r.randrange(lo - abs(lo) // 8 - 3, hi + hi // 8 + 3) >> r.randrange(0, 8 * w)
            text(n, b"%d" % x)
            x = (r.getrandbits(8 * w) >> r.randrange(8 * w)) * r.choice([1, -1]) % (1 << 8 * w)
            cases.append(("int_to_json", [n.encode(), x.to_bytes(w, "little")]))
            m = bytearray(b"%d" % x); m[r.randrange(len(m))] = r.choice(b"0123456789-+. eE/:ax")
            text(n, bytes(m))
    return cases
def row_cases(c):
    r = c.rng
    cases = []
    for w in (1, 8, 16, 32):
        top = 1 << (8 * w)
        for x in [0, 1, 9, 10, top - 1, top, top + 1, top * 10, top // 10, top // 2, top // 2 - 1] + [r.getrandbits(8 * w + 2) >> r.randrange(8 * w) for _ in range(c.pick(100, 2000))]:
            for t in (b"%d" % x, b"0" * r.randrange(4) + b"%d" % x): cases.append(("dec_to_bin", [bytes([w]), t]))
            if x < top: cases.append(("bin_to_dec", [x.to_bytes(w, "little")]))
        for t in (b"", b"-1", b"1x", b"/", b":", b"1 ", b" 1", b"+1", b"\x80"): cases.append(("dec_to_bin", [bytes([w]), t]))
    return cases
def run(c):
    r = c.rng
    cases = gen(c, TY) + row_cases(c)
    for sg in ("TRUE", "FALSE"):
        em = c.mc("MC_Ints", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Agree Value Prints\nCONSTANTS Signed = %s MaxLen = %d\n" % (sg, 4 if not c.thorough() else 5))
        for x in em:
            t = bytes(x["text"])
            n = "int8" if sg == "TRUE" else "uint8"
            if len(t) <= 3 or r.random() < c.pick(.4, 1): cases.append(("int_from_json", [n.encode(), b'"' + t + b'"']))
    c.conform(["ints.cpp"], "T_Ints", "IntsJudge", cases)
    return c.finish("every text of up to %d characters over a digit/sign alphabet for 8-bit types (TLC), plus limits +-12, every power of two and ten, single-digit changes of the limits, malformed texts and random numbers for all 12 integer types, quoted and bare, through the C++ and the C API" % c.pick(4, 5))
