"""C23 fixed-size byte values and reflected comparison"""
import struct
SIZES = [1, 2, 3, 5, 7, 8, 9, 12, 16, 20, 23, 31, 32, 33, 64]
def run(c):
    r = c.rng
    cases = []
    rb = lambda n: bytes(r.choice([0, 1, 127, 128, 255, r.randrange(256)]) for _ in range(n))
    B = lambda *x: [bytes([i]) for i in x]
    em = c.mc("MC_FixedBytes", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Layout Back Order\nCONSTANT MaxLen = %d\n" % c.pick(5, 6))
    for x in em:
        b = bytes(x["b"])
        if len(b) in SIZES and (len(b) < 5 or r.random() < c.pick(.5, 1)):
            cases.append(("fb_make", B(len(b), r.choice([1, 2, 4, 8]), 1, r.randrange(2)) + [b]))
            o = bytearray(b); o[r.randrange(len(o))] = r.choice([0, 1, 128, 255])
            cases.append(("fb_cmp", B(len(b), r.choice([1, 2, 4, 8])) + [b, bytes(o)]))
    for n in SIZES:
        for w in (1, 2, 4, 8):
            for e in (1, 2, 4, 8):
                full = (n + e - 1) // e
                for k in {full, full - 1, full // 2, 0}:
                    for _ in range(c.pick(1, 8)): cases.append(("fb_make", B(n, w, e, r.randrange(2)) + [tail(r, rb(k * e), e, n, w)]))
                if n > 1: cases.append(("fb_seq", B(n, w, e) + [tail(r, rb(full * e), e, n, w)]))
            for _ in range(c.pick(4, 40)):
                x = rb(n); cases.append(("fb_bin", B(n, w) + [rb(n + r.choice([-1, 0, 0, 1, 3]))]))
                y = bytearray(x)
                for _ in range(r.choice([0, 1, 1, 2])): y[r.choice([0, n - 1, r.randrange(n), min(n - 1, 8), min(n - 1, 7)])] = r.choice([0, 1, 127, 128, 255])
                cases.append(("fb_cmp", B(n, w) + [x, bytes(y)]))
                h = x.hex(); h = r.choice([h, h.upper(), "".join(r.choice([ch, ch.upper()]) for ch in h)])
                m = r.random()
                if m < .1: h = h[:-1]
                elif m < .2: h = h[:-2]
                elif m < .3: h += "0"
                elif m < .4: h += "00"
                elif m < .6: i = r.randrange(len(h)); h = h[:i] + r.choice("gG/:@`x -.") + h[i + 1:]
                cases.append(("fb_json", B(n, w) + [b'"' + h.encode() + b'"']))
            cases.append(("fb_json", B(n, w) + [b"12"])) if n != 1 else 0
            cases.append(("fb_json", B(n, w) + [b"null"]))
    for k in (1, 3, 5, 7):
        for _ in range(6): cases.append(("fb_list", [rb(k)]))
    def st():
        return [r.choice([b"\0\0", b"\1\0", b"\xff\xff", b"\0\x80", b"\xff\x7f", b"\0\1"]), r.choice([b"", b"\0", b"a", b"ab", b"a\0", b"\x80", b"\xff", b"b"]), r.choice([b"\0", b"\1", b"\x80", b"\xff"]),
                r.choice([b"\0" * 8, b"\1" + b"\0" * 7, b"\xff" * 8, b"\0" * 7 + b"\x80", b"\0" * 4 + b"\1\0\0\0"]), r.choice([b"\0" * 20, b"\0" * 19 + b"\1", b"\1" + b"\0" * 19, b"\xff" * 20, b"\0" * 4 + b"\1" + b"\0" * 15]), r.choice([b"", b"\0", b"\x80", b"\x7f", b"\0\0"])]
    for _ in range(c.pick(400, 6000)):
        x = st(); y = list(x)
        for k in r.sample(range(6), r.choice([0, 1, 1, 2, 3])): y[k] = st()[k]
        cases.append(("st_cmp", x + y))
        u = [x[2], x[3], bytes([r.randrange(2)])]; v = [y[2], y[3], bytes([r.randrange(2)])]
        cases.append(("sd_cmp", u + v))
        f = lambda: [struct.pack("<f", r.choice([0.0, -0.0, 1.0, -1.0, 1.5, 3e38, 1e-45, float("inf"), -float("inf"), float("nan")])), bytes([r.choice([0, 1, 255])]), struct.pack("<d", r.choice([0.0, -0.0, 1.0, -1.0, 1.5, 1e308, 5e-324, float("inf"), -float("inf"), float("nan"), -float("nan")]))]
        u = f(); v = [x if r.random() < .6 else y for x, y in zip(u, f())]
        cases.append(("sf_cmp", u + v))
    c.conform(["fixed.cpp"], "T_FixedBytes", "FixedJudge", cases, lib=False)
    return c.finish("15 sizes x 4 storage words x 4 source word sizes, full and short sources, arrays, C arrays, word sequences and lists; hex of right and wrong length and case; comparisons of values differing at chosen bytes and of reflected structs (nested, derived) differing in chosen members")
def tail(r, b, e, n, w): # words: the part of the last word beyond n bytes is zero when the storage word is the same
    b = bytearray(b)
    for i in range(len(b)):
        word, k = divmod(i, e)
        if word * e + (e - 1 - k) >= n: b[i] = 0
    return bytes(b)
