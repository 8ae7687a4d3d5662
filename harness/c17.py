"""C17 variable-length integers"""
def run(c):
    r = c.rng
    cases = []
    V = [0, 2**32 - 1, 2**31, 2**31 - 1] + [x for i in range(32) for x in (1 << i, (1 << i) - 1, (1 << i) + 1)] + [x % 2**32 for i in range(32) for x in (-(1 << i), -(1 << i) - 1, -(1 << i) + 1)]
    V += [r.getrandbits(32) >> r.randrange(32) for _ in range(c.pick(2000, 40000))]
    if c.thorough(): V += list(range(0, 70000))
    for v in V:
        b = v.to_bytes(4, "little")
        cases += [("vu_enc", [b]), ("vs_enc", [b])]
        e = enc(v)
        junk = bytes(r.randrange(256) for _ in range(r.randrange(3)))
        for op in ("vu_dec", "vu_obj_dec", "vs_dec"): cases.append((op, [e + junk]))
        if len(e) > 1: cases.append((r.choice(["vu_dec", "vs_dec", "vu_obj_dec", "vu_fail_pos"]), [e[:r.randrange(len(e))]]))
    for _ in range(400):
        v = r.choice([r.getrandbits(64), 2**32, 2**32 - 1, 2**33, r.getrandbits(32), 1 << r.randrange(64)])
        cases.append(("vu_enc64", [v.to_bytes(8, "little")]))
        cases.append(("vu64_dec", [enc(v) + b"\x05" * r.randrange(2)]))
    for lim in (5, 10):
        inv = "Agree Short TooLong Minimal"
        for x in c.mc("MC_Varint", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS %s\nCONSTANT Limit = %d\nCONSTANT Al <- AlFull\n" % (inv, lim) if lim == 5 or c.thorough() else
                      "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS %s\nCONSTANT Limit = 10\nCONSTANT Al <- AlSmall\n" % inv):
            b = bytes(x["b"])
            if lim == 5:
                cases += [(op, [b]) for op in (["vu_dec", "vs_dec", "vu_fail_pos"] if r.random() < c.pick(.15, 1) else [r.choice(["vu_dec", "vs_dec", "vu_fail_pos", "vu_obj_dec"])])]
            cases.append(("vu64_dec", [b]))
    for _ in range(c.pick(1500, 20000)):
        n = r.randrange(0, 13)
        b = bytes(r.choice([0x80, 0xff, 0x81, 0x7f, 0, 1, r.randrange(256)]) for _ in range(n))
        cases += [(op, [b]) for op in ("vu_dec", "vu64_dec", "vs_dec", "vu_fail_pos")]
    for _ in range(300):
        n = r.choice([0, 1, 5, 127, 128, 129, 200, 300])
        s = bytes(r.randrange(256) for _ in range(n))
        m = r.choice([n, n, n, max(0, n - 1), n + 1, 2**32, 2**63, 2**64 - 1, 2**64 - 3])
        p = enc(m)
        if r.random() < .3 and len(p) < 9: p = p[:-1] + bytes([p[-1] | 128]) + b"\x80" * r.randrange(2) + b"\0"    # not minimal
        cases.append(("vu_string", [p + s]))
    c.conform(["varint.cpp"], "T_Varint", "VarintJudge", cases, lib=False)
    return c.finish("TLC enumerates every byte string over a boundary alphabet up to one byte past the limit; plus every power-of-two neighbourhood and random values/strings")
def enc(v):
    o = bytearray()
    while True:
        b = v & 127; v >>= 7
        o.append(b | (128 if v else 0))
        if not v: return bytes(o)
