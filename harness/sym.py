LET = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
def P8(v): return (v % 2**64).to_bytes(8, "little")
def code(r, n=None): return "".join(r.choice(LET if r.random() < .8 else "AZ") for _ in range(n or r.choice([1, 2, 3, 3, 3, 4, 6, 7])))
def symb(p, k): return bytes([p]) + k.encode().ljust(7, b"\0")
def amount(r):
    m = r.random()
    if m < .3: v = r.choice([0, 1, 9, 10, 11, 99, 10000, 2**62, 2**62 - 1, 2**62 + 1, 2**63 - 1, 2**32, 10**18, 10**18 - 1])
    else: v = r.getrandbits(63) >> r.randrange(63)
    return r.choice([v, -v, -v, v, -2**63 if m < .02 else v])
def text(am, p):
    d = str(abs(am)).rjust(p + 1, "0")
    return ("-" if am < 0 else "") + (d[:-p] + "." + d[-p:] if p else d)
def mut(r, t):
    i = r.randrange(len(t) + 1); ch = r.choice("0159.,- +AZ@[az/:")
    return r.choice([t[:i] + ch + t[i:], t[:i] + ch + t[i + 1:], t[:i] + t[i + 1:], t + ch])
