"""C02 binary to JSON"""
from cases import *
def run(c):
    r = c.rng
    cases = []
    def add(t, root, b): cases.append((r.choice(["dec", "dec", "dech", "decx"]), [t, root, b]))
    for which in (small(), exts()):
        for x in some(r, model_bins(c, which, c.pick(5, 6)), lambda x: x[3], c.pick(500, 8000), c.pick(400, 8000)): add(*x[:3])
    for d, t in pool(c, c.pick(30, 500)):
        tx = jtext(d)
        for _ in range(c.pick(2, 4)):
            b = fitting_bin(r, d, t, r.random() < .6)
            if b is None: continue
            add(tx, t.encode(), b)
            if endless(Types(d), t): continue
            for _ in range(2): add(tx, t.encode(), hurt(r, b))
            if len(b) < 60 and r.random() < .15:
                for i in range(len(b)): add(tx, t.encode(), b[:i])
    for k in "SOVX":
        for n in (1, 2, 3, 64, 126, 127, 128, 129, 130, 200):
            d, t, s, b = nest(n, k)
            for x in (b, b + b"\0", b[:-1], b"\1" + b): add(jtext(d), t.encode(), x)
    d = rich(); tx = jtext(d)
    for b in BUILTIN: # one of each, all-zero, all-ones
        for n in (0, 1, 4, 8, 16, 20, 33, 34, 64):
            if n < 9 or r.random() < .4: add(tx, b.encode(), bytes(n)); add(tx, b.encode() + r.choice([b"", b"[]", b"?"]), bytes([r.choice([1, 255])]) * n)
    for t in ("nope", "", "int8??", "tree[][]", "tree$$"): add(tx, t.encode(), b"\1")
    for n in (127, 128, 300): add(tx, b"int8[]", vu(n) + b"\7" * n); add(tx, b"int8[]", vu(n) + b"\7" * (n - 1)); add(tx, b"empty[]", vu(n))
    tx, ws = wide_cases(r)
    for t, j, b in ws: add(tx, t.encode(), b); add(tx, t.encode(), b[:-1])
    for i in (265, 266, 383, 384, 16384, 65536 + 3): add(tx, b"V", vu(i) + b"\5")
    cases += big_cases(r, c.pick(20, 40))
    c.conform(["codec.cpp"], "T_Codec", "CodecJudge", cases, abis=True)
    return c.finish("every binary of up to %d bytes over {0,1,2,128} for 17 root types (TLC: stack machine against the declarative codec), replayed; random encodings (also with non-minimal counts, odd flags, invalid UTF-8) of random types, truncated, extended and damaged, nesting around 128; the JSON is parsed and compared, and encoded again" % c.pick(5, 6))
