"""C13 RIPEMD-160"""
def run(c):
    r = c.rng
    cases = [("rmd", [m]) for m in (b"", b"a", b"abc", b"message digest", b"abcdefghijklmnopqrstuvwxyz", b"1234567890" * 8)]
    rb = lambda n: bytes(r.choice([0, 255, 128, r.randrange(256)]) for _ in range(n))
    for n in range(0, c.pick(140, 330)): cases.append(("rmd", [rb(n)]))
    sizes = "{0, 1, 55, 56, 63, 64, 65, 128}"
    inv = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Counts PadOK HashOK\nCONSTANTS Sizes = %s MaxChunks = %d WithHash = %s\n"
    em = c.mc("MC_Ripemd", inv % (sizes, 3, "FALSE")) + c.mc("MC_Ripemd", inv % ("{1, 56, 64}", c.pick(2, 3), "TRUE"))
    for x in em:
        t, ch = 0, []
        for n in x["chunks"]:
            ch.append(bytes((7 * (t + i) + 3) % 256 for i in range(1, n + 1))); t += n
        cases.append((r.choice(["rmd", "rmd", "rmd_run"]), ch))
    for _ in range(c.pick(150, 2500)):
        ch = [rb(r.choice([0, 1, 3, 4, 31, 55, 56, 57, 60, 63, 64, 65, 119, 120, 127, 128, 129, r.randrange(200)])) for _ in range(r.randrange(1, 6))]
        m = r.random()
        if m < .5: cases.append(("rmd", ch))
        elif m < .7: cases.append(("rmd_run", ch[:3]))
        elif m < .85: cases.append(("rmd_fork", (ch + [b"x", b"yy"])[:3]))
        bits = r.choice([0, 512, 2**32 - 8, 2**32, 2**32 + 8, 2**35, 2**63, r.getrandbits(61) * 8]) // 512 * 512
        cases.append(("rmd_state", [rb(20), bits.to_bytes(8, "little"), rb(r.choice([0, 1, 55, 56, 63, 64, 100]))]))
    c.conform(["ripemd.cpp"], "T_Ripemd", "RipemdJudge", cases, lib=False)
    cases = []
    for n in [2**29 + 57] + c.pick([], [2**28, 2**29 - 1, 2**31 - 1]): cases.append(("rmd_huge", [n.to_bytes(8, "little"), (r.randrange(1, 2**20) | 1).to_bytes(8, "little")]))
    c.conform(["ripemd.cpp"], "T_Ripemd", "RipemdJudge", cases, lib=False, per_op=250, defs=("-O2",))
    return c.finish("every message length 0..%d, every sequence of up to 3 chunks of border sizes (TLC), random chunkings, forks and injected chaining states with large bit counts, a message of half a gigabyte in one piece and in many; the oracle is RIPEMD-160 written from its definition in TLA+" % c.pick(139, 329))
