"""C18 streams keep their bounds, sizes match what is written"""
import struct
from zoo import *
Q = lambda n: struct.pack("<Q", n)
HUGE = [1 << 31, 1 << 32, (1 << 32) + 1, 1 << 62, 1 << 63, (1 << 64) - 1, (1 << 64) - 2, (1 << 64) - 16, (1 << 63) - 1]
def outs(r, kind, cap, n):
    ops = []
    for _ in range(n):
        k = r.choice("cwwwarr+-n:h")
        b = r.randbytes(1) if k == "c" else r.randbytes(r.choice([0, 1, 2, 3, 7, 8, r.randrange(40)])) if k == "w" else r.randbytes(r.choice([3, 5])) if k == "a" else r.randbytes(r.choice([1, 2, 4, 8])) if k == "r" else b""
        if k == "h":
            if kind % 3: continue
            b = Q(r.choice(HUGE + [cap + 1, cap + 2, 1000]))
        ops.append(k.encode() + b)
    return ops
def ins(r, d, n):
    ops, left = [], len(d)
    for _ in range(n):
        k = r.choice("rrusskmwwvVSWz")
        m = r.choice([0, 1, 2, left, left - 1, left + 1, r.randrange(left + 2)] + HUGE[:: 3] + [r.choice(HUGE)])
        b = Q(max(m, 0)) if k in "rusk" else bytes([r.choice([1, 2, 4, 8])]) if k == "w" else b""
        if k in "rus" and m <= left: left -= max(m, 0)
        ops.append(k.encode() + b)
    return ops
def text(r, n):
    """input bytes full of lengths and counts"""
    b = b""
    while len(b) < n: b += r.choice([bytes([r.randrange(8)]), bytes([r.randrange(256)]), bytes([128 | r.randrange(128), r.randrange(4)]), b"\xff\xff\xff\xff\x0f", b"\x80" * r.randrange(1, 11) + b"\0", b"\xff" * r.choice([4, 5, 9, 10]) + b"\1", vu(3) + b"abc"])
    return b[:n]
def run(c):
    r = c.rng
    cases = []
    inv = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n  MaxOps = %d\n  Out = %s\nINVARIANTS %s\n"
    for x in c.mc("MC_Streams", inv % (c.pick(2, 4), "TRUE", "Bounds Whole1 Sizes"), env={"MC": "out"}):
        f = x["first"]; kind = 3 if f["pretty"] else 0
        cases.append(("out_seq", [bytes([kind]), struct.pack("<I", f["cap"])] + [bytes(o) for o in x["ops"]]))
        if f["cap"] == 0 and not any(o[0] == 104 for o in x["ops"]): cases += [("out_seq", [bytes([kind + i]), bytes(4)] + [bytes(o) for o in x["ops"]]) for i in (1, 2)]
    for x in c.mc("MC_Streams", inv % (c.pick(2, 3), "FALSE", "Bounds Exact"), env={"MC": "in"}):
        cases.append(("in_seq", [bytes(x["first"]["data"])] + [bytes(o) for o in x["ops"]]))
    if len(cases) > c.pick(6000, 60000): cases = r.sample(cases, c.pick(6000, 60000))
    for _ in range(c.pick(700, 10000)):
        kind, cap = r.randrange(6), r.choice([0, 1, 2, 7, 8, 16, 33, 64, r.randrange(200)])
        cases.append(("out_seq", [bytes([kind]), struct.pack("<I", cap)] + outs(r, kind, cap, r.randrange(1, 16))))
        d = text(r, r.choice([0, 1, 2, 5, 9, 16, r.randrange(80)]))
        cases.append(("in_seq", [d] + ins(r, d, r.randrange(1, 10))))
    c.conform(["streams.cpp"], "T_Streams", "StreamsJudge", cases)
    # one-shot conversions of every type reserve what they write
    types = SCALAR + VEC + OPT + SEQ + TUP + VAR + ENUM + OWN
    setup(types)
    us = units(types, ["z_tobin", "z_json", "z_keys"])
    cases = []
    for t in types:
        for _ in range(c.pick(4, 60)):
            cases.append(("z_tobin", [t.encode(), wire(r, t)]))
            if can_json(t): cases.append(("z_json", [t.encode(), wire(r, t, odd=.5)]))
        if can_key(t): cases.append(("z_keys", [t.encode()] + [wire(r, t, small=r.random() < .5) for _ in range(3)]))
    c.conform(us, "T_Zoo", "ZooJudge", cases)
    return c.finish("every history of up to %d calls on small output and %d on small input streams (TLC: bounds, exactness, sizes), replayed on the six kinds of streams; random long histories with sizes up to 2^64-1; every type of the zoo: convert_to_bin/_key/_json and format_json against what size, vector and fixed streams get, exact and short buffers" % (c.pick(2, 4), c.pick(2, 3)))
