"""C11 floating point text"""
import struct
from fractions import Fraction
FMT = {"float32": ("<f", "<I", 32, 24, -149), "float64": ("<d", "<Q", 64, 53, -1074)}
def dec(fr, digits=None): # exact decimal expansion of a dyadic fraction
    n, d = fr.numerator, fr.denominator; k = d.bit_length() - 1
    n *= 5 ** k; s = str(n)
    return (s, -k)
def spell(r, digits, e):
    m = r.random()
    if m < .45 or abs(e) > 60: 
        k = r.choice([0, 1, len(digits) // 2]) if len(digits) > 1 else 0
        t = digits[:k] + "." + digits[k:] if k else digits
        x = e + (len(digits) - k if k else 0)
        return t + (r.choice("eE") + r.choice(["", "+"] if x >= 0 else [""]) + str(x) if x or m < .1 else "")
    if e >= 0: return digits + "0" * e + r.choice(["", ".0", ".000"])
    if -e < len(digits): return digits[:e] + "." + digits[e:]
    return "0." + "0" * (-e - len(digits)) + digits
def zero_big(t): # the JSON reader refuses bare zeros with large exponents
    m = t.lower().split('e'); return len(m) == 2 and not m[0].strip('+-0.') and m[1].strip('+-').isdigit() and len(m[1].strip('+-').lstrip('0')) > 2
def run(c):
    r = c.rng
    cases = []
    def parse(ty, t):
        b = t.encode("latin1")
        cases.append((r.choice(["flt_parse", "flt_parse", "flt_abi"]) if b"\0" not in b else "flt_parse", [ty.encode(), b'"' + b + b'"' if b"\0" in b or zero_big(t) else r.choice([b'"' + b + b'"', b])]))
    em = c.mc("MC_Float", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS One Agree\nCONSTANT MaxLen = %d\n" % c.pick(4, 5))
    for x in em:
        if r.random() < (c.pick(.5, .4) if x["ok"] else c.pick(.15, .1)): parse(r.choice(list(FMT)), bytes(x["t"]).decode())
    for ty, (ff, fi, nb, p, q0) in FMT.items():
        fb, eb = p - 1, nb - p
        pats = []
        for e in {0, 1, 2, (1 << eb - 1) - 1, (1 << eb) - 2, (1 << eb - 1), 5, (1 << eb - 1) + fb, (1 << eb - 1) + fb + 1, (1 << eb - 1) - 4}:
            for f in (0, 1, 2, (1 << fb) - 1, (1 << fb) - 2, 1 << (fb - 1), (1 << (fb - 1)) - 1): pats.append(e << fb | f)
        pats += [(1 << eb) - 1 << fb, ((1 << eb) - 1 << fb) | 1, ((1 << eb) - 1 << fb) | 1 << (fb - 1)]
        for _ in range(c.pick(250, 4000)):
            e = r.choice([r.randrange(1 << eb), r.randrange(1 << eb), (1 << eb - 1) - 1 + r.randrange(-40, 70), r.randrange(3)])
            pats.append((max(0, min((1 << eb) - 2, e)) << fb) | (r.getrandbits(fb) >> r.choice([0, 0, 0, r.randrange(fb)])) << 0)
        for x in [1, 10, 100, 1000, 1e15, 1e16, 1e17, 1e20, 1e21, 1e22, 1e23, 123456789012345680.0, .1, .01, .001, .0001, .00001, 1e-6, 1e-7, 5e-324, 1.7976931348623157e308, 123.456, 0.3, 9007199254740993.0, 1e38, 16777216.0, 33554432.0]:
            try: pats.append(struct.unpack(fi, struct.pack(ff, x))[0])
            except OverflowError: pass
        for k in range(-30, 40):
            try: pats.append(struct.unpack(fi, struct.pack(ff, float("1e%d" % k)))[0]); pats.append(struct.unpack(fi, struct.pack(ff, float("9.5e%d" % k)))[0])
            except OverflowError: pass
        for _ in range(c.pick(150, 3000)): # about as long as the buffer the number is printed into
            try: x = struct.unpack(fi, struct.pack(ff, r.choice([r.random(), 1.0, 1.5]) * 10.0 ** r.randrange(15, 29)))[0]; pats.append(x); pats.append(x | 1 << nb - 1)
            except OverflowError: pass
        for x in pats:
            b = struct.pack(fi, x ^ (r.randrange(2) << (nb - 1)))
            cases.append(("flt_print", [ty.encode(), b]))
        # texts at, just above and just below midpoints of neighbours
        mids = r.sample(pats, min(len(pats), c.pick(110, 1500)))
        for x in mids:
            x &= (1 << nb - 1) - 1
            if x >> fb >= (1 << eb) - 1: continue
            e, f = x >> fb, x & (1 << fb) - 1
            m, q = (f, q0) if e == 0 else (f | 1 << fb, q0 + e - 1)
            mid = Fraction(2 * m + 1) * Fraction(2) ** (q - 1)
            ds, ex = dec(mid)
            if len(ds) > c.pick(300, 800): ds2 = ds[:40]; parse(ty, spell(r, ds2, ex + len(ds) - 40)); continue
            sg = r.choice(["", "-"])
            for t, e2 in ((ds, ex), (ds + "1", ex - 1), (ds[:-1] + str(int(ds[-1]) - 1) + "9", ex - 1)):
                if r.random() < .7: parse(ty, sg + spell(r, t, e2))
            v, ve = dec(Fraction(m) * Fraction(2) ** q) if m else ("0", 0)
            parse(ty, sg + spell(r, v[:60], ve + max(0, len(v) - 60)))
        top = Fraction((1 << p + 1) - 1) * Fraction(2) ** ((1 << eb) - 3 + q0)
        ds, ex = dec(top); n = int(ds) * 10 ** ex
        for d in (-1, 0, 1): parse(ty, str(n + d)); parse(ty, str(n + d)[:30] + "e" + str(len(str(n)) - 30))
        for t in ("1e309", "-1e309", "1e400", "1e-400", "-1e-400", "1e99999999999", "1e-99999999999", "0e99999999", "4e38", "3.5e38", "3.4028235677973366e38", "3.4028235677973365e38", "1.7976931348623159e308", "1.7976931348623158e308",
                  "2.4703282292062327e-324", "2.4703282292062328e-324", "7.0064923216240853e-46", "7.0064923216240854e-46", "1.1754943508222874e-38", "2.2250738585072011e-308", "2.2250738585072014e-308", "0." + "0" * 400 + "1", "1" + "0" * 308, "1" + "0" * 309, "0" * 50 + "1", "00", "-0", "-0.0", "0", "+0", "+1", ".5", "5.", "-.5", ".", "-", "+", "", "e5", "1e", "1e+", "1e-", "--1", "1-", "1..2", "1.2.3", "1e5e5", "1e5.5", "abc", "1a", "1 ", "1,5", "Infinity", "-Infinity", "NaN", "Infinit", "Infinityy", "infinityx", "nanx", "NaNx", "-NaN", "true", "null", "1\0", "1_000", "1f", "1d", "١", "0b1", "1e5 "):
            parse(ty, t) if all(ord(ch) < 256 for ch in t) else None
        for _ in range(c.pick(150, 3000)):
            ds = "".join(r.choice("0123456789") for _ in range(r.choice([1, 2, 5, 9, 15, 16, 17, 18, 19, 20, 25, 40])))
            t = r.choice(["", "-"]) + spell(r, ds, r.choice([r.randrange(-20, 20), r.randrange(-330, 300), r.randrange(-50, 40), r.randrange(-340, -300), 0]))
            if r.random() < .12: i = r.randrange(len(t) + 1); t = t[:i] + r.choice("eE.+-_x a,") + t[i + r.randrange(2):]
            parse(ty, t)
    c.conform(["floats.cpp"], "T_Float", "FloatJudge", cases)
    return c.finish("printing and reading back of boundary and random bit patterns of both formats; texts exactly at, just above and just below the midpoints of neighbouring numbers, at the overflow and underflow borders, random and malformed texts, quoted and bare, through C++ and C API; all texts of up to %d characters of a numeric alphabet (TLC)" % c.pick(4, 5))
