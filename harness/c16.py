"""C16 asset arithmetic"""
from sym import *
M = 2**62 - 1
def run(c):
    r = c.rng
    cases = []
    EOS, EOS3, SYS = symb(4, "EOS"), symb(3, "EOS"), symb(4, "EOT")
    K = [b"\1\0\0\0\0\0\0\0", b"\2\0\0\0\0\0\0\0"]
    VAL = [0, 1, -1, 2, -2, 3, 7, 10, M, M - 1, -M, -M + 1, M // 2, M // 2 + 1, -(M // 2), -(M // 2) - 1, 2**31, 2**32, -2**31, 3037000499, 3037000500, 2147483648, 10**18]
    INT = VAL + [2**62, 2**63 - 1, -2**63, -2**62, -2**63 + 1]
    bins = ["as_add", "as_sub", "as_add_to", "as_sub_from", "as_div", "as_eq", "as_lt", "as_le", "as_gt", "as_ge"]
    exs = ["ex_add", "ex_sub", "ex_add_to", "ex_sub_from", "ex_lt", "ex_le", "ex_ge", "ex_eq"]
    ints = ["as_mul", "as_mul_by", "mul_as", "as_idiv", "as_idiv_by"]
    def rv(): return max(-M, min(M, r.choice([r.getrandbits(62) >> r.randrange(62), r.choice(VAL), M - r.randrange(10)]) * r.choice([1, -1])))
    def pair(x, y, ops=bins):
        for op in ops:
            t = EOS if r.random() < .9 else r.choice([EOS3, SYS, symb(4, "EOSA")])
            cases.append((op, [P8(x), EOS, P8(y), t]))
        for op in r.sample(exs, 3):
            t = EOS if r.random() < .85 else r.choice([EOS3, SYS])
            cases.append((op, [P8(x), EOS, P8(y), t, K[0], K[0] if r.random() < .85 else K[1]]))
    for x in VAL:
        for y in VAL: pair(x, y, r.sample(bins, 5) if not c.thorough() else bins)
        for y in INT: cases += [(op, [P8(x), EOS, P8(y)]) for op in r.sample(ints, c.pick(3, 5))]
    for _ in range(c.pick(500, 12000)):
        x = rv(); y = r.choice([rv(), x, x + 1 if x < M else x, -x, max(-M, min(M, r.choice([M, -M]) - x + r.randrange(-2, 3)))])
        pair(x, y, r.sample(bins, 4))
        for op in ints: # products around the limit
            y = r.choice([rv(), r.choice(INT), (M // x if x else 5) + r.randrange(-1, 2), (-M // x if x else 5) + r.randrange(-1, 2), (2**64 // x if x else 1) + r.randrange(-1, 2), r.randrange(-9, 9)])
            y = max(-2**63, min(2**63 - 1, y))
            cases.append((op, [P8(x), EOS, P8(y)]))
        cases.append(("as_neg", [P8(x), EOS, P8(0)])); cases.append(("ex_neg", [P8(x), EOS, P8(0), EOS, K[0], K[0]]))
    # different symbols, contracts: every operator
    for op in bins: cases += [(op, [P8(5), EOS, P8(5), t]) for t in (EOS3, SYS, symb(5, "EOS"), symb(4, "EO"), symb(4, "EOSS"))]
    for op in exs:
        for t in (EOS, EOS3):
            for k in K: cases.append((op, [P8(5), EOS, P8(5), t, K[0], k]))
        cases.append((op, [P8(0), EOS, P8(0), EOS, K[0], b"\1\0\0\0\0\0\0\1"]))
    for op in ("as_div",): cases.append((op, [P8(5), EOS, P8(0), EOS3]))
    # construction
    syms = [EOS, symb(255, "A"), symb(0, "ABCDEFG"), b"\0" * 8, b"\4\0\0\0\0\0\0\0", b"\4E\0S\0\0\0\0", b"\4eos\0\0\0\0", b"\4EO1\0\0\0\0", b"\4ABCDEFg", b"\4@\0\0\0\0\0\0", b"\4[\0\0\0\0\0\0", b"\4\0A\0\0\0\0\0", b"\4A\0\0\0\0\0A", b"\4ABCDEF\xff"]
    for v in INT + [M + 1, -M - 1, M + 2]:
        for s in syms:
            cases += [("as_make", [P8(v), s]), ("as_valid", [P8(v), s])]
            if r.random() < .4: cases.append(("ex_make", [P8(v), s, K[0]]))
        cases.append(("as_set", [P8(r.choice(VAL)), EOS, P8(v)]))
    for _ in range(c.pick(300, 4000)):
        s = bytearray(symb(r.randrange(256), code(r)))
        if r.random() < .5: s[r.randrange(1, 8)] = r.choice([0, 64, 65, 90, 91, 97])
        v = r.choice([rv(), r.getrandbits(64), r.choice([M, -M]) + r.randrange(-2, 3)])
        cases += [("as_make", [P8(v), bytes(s)]), ("as_valid", [P8(v), bytes(s)]), ("as_set", [P8(0), EOS, P8(v)]), ("ex_make", [P8(v), bytes(s), K[1]])]
    # small-range model of a wallet history, scaled onto the real limits
    for x in c.mc("MC_Asset", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Exact Scaled\nCONSTANT Steps = %d\n" % c.pick(2, 3)):
        big = lambda n: big_of(n)
        op = x["op"]
        if op in ("as_mul", "as_idiv"): cases.append((op, [P8(big(x["a"])), EOS, P8(x["b"])]))
        else: cases.append((op, [P8(big(x["a"])), EOS, P8(big(x["b"])), EOS]))
    c.conform(["symasset.cpp"], "T_SymAsset", "AssetJudge", cases)
    return c.finish("boundary amounts crossed pairwise with every operator, products and sums steered to the 2^62 border, foreign symbols and contracts, and a TLC-enumerated history of operations on amounts scaled to the limit")
def big_of(n): # the model's amounts -4..4 (limit 3) on the real scale
    return {0: 0, 1: 1, 2: M // 2, 3: M}[abs(n)] * (1 if n > 0 else -1)
