"""C24 clock values and integer wrappers: histories of commands"""
from cases import *
def run(c):
    r = c.rng
    cases = []
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nVIEW View\nINVARIANTS Back Monotone Undo Floor InUnits Total\nCONSTANT MaxCalls = %d\n"
    for n in c.pick((2,), (2, 3)):
        em = c.mc("MC_Clock", cfg % n, timeout=3000)
        for h in (em if n < 3 else sample(r, em, 60000)): cases.append(hist((bytes(op), i, j, bytes(x)) for op, i, j, x in h))
        if n == 2:
            ops = {bytes(op) for h in em for op, i, j, x in h}
            last = [[(bytes(op), i, j, bytes(x)) for op, i, j, x in h] for h in em]
            known = sorted({m for h in last for m in h})
    # long histories over the same commands with other numbers
    for _ in range(c.pick(1500, 40000)):
        s = []
        for _ in range(r.randrange(3, 16)):
            op, i, j, x = r.choice(known)
            if r.random() < .8: x = number(r, op)
            s.append((op, r.choice([1, 1, 2]), r.choice([1, 2, 2]), x))
        cases.append(hist(defined(r, s)))
    c.conform(["clock.cpp"], "T_Clock", "ClockJudge", cases, lib=False)
    c.notes["commands"] = sum(len(x[1]) // 3 for x in cases)
    c.notes["operations"] = len(ops)
    return c.finish("every one of the commands in every register state reached by up to %d commands (TLC's breadth-first search, one history per transition), and random histories of up to 15 commands with boundary numbers; all registers and all comparisons are looked at after every command" % c.pick(1, 2))
def hist(s): return ("clock", [y for op, i, j, x in s for y in (op, bytes([i, j]), x)])
I64 = lambda v: (v % (1 << 64)).to_bytes(8, "little")
E2K = 946684800
def number(r, op):
    if op in (b"us",): v = r.choice([r.randrange(0, 2**32) * 10**6 + r.choice([0, 1, 999999, 500000, 499999]), r.getrandbits(50), -r.getrandbits(50), r.choice([1, -1]) * r.getrandbits(63), E2K * 10**6 + r.getrandbits(51), r.randrange(-3, 4)])
    elif op in (b"seconds", b"milliseconds", b"minutes", b"hours", b"days"): v = r.choice([r.randrange(-100, 100), r.getrandbits(30), -r.getrandbits(26), r.getrandbits(44) >> r.randrange(44)])
    else: v = r.choice([r.getrandbits(32), r.getrandbits(32) >> r.randrange(32), 2**32 - 1 - r.randrange(3), 2**31 - r.randrange(-2, 3), r.randrange(4), E2K + r.getrandbits(30)])
    if op == b"w=n64" and r.random() < .6: v = v - 2**32 if v >= 2**31 else v
    return I64(v)
def defined(r, s):
    """leaves out most commands whose result cannot be held (the specification says nothing after one)"""
    g = {"u": [0, 0], "p": [0, 0], "s": [0, 0], "b": [0, 0], "w": [0, 0], "v": [0, 0]}
    K = {"seconds": 10**6, "milliseconds": 1000, "minutes": 6 * 10**7, "hours": 36 * 10**8, "days": 864 * 10**8}
    for op, i, j, x in s:
        o = op.decode(); i -= 1; j -= 1; n = int.from_bytes(x, "little", signed=True); U, P, S, L = g["u"], g["p"], g["s"], g["b"]
        new = None
        bt = lambda k: L[k] * 500000 + E2K * 10**6
        if o in K: new = ("u", n * K[o])
        elif o == "us": new = ("u", n)
        elif o in ("u+u", "u+=u"): new = ("u", U[i] + U[j])
        elif o in ("u-u", "u-=u"): new = ("u", U[i] - U[j])
        elif o in ("umax", "pmax"): new = (o[0], 2**63 - 1)
        elif o == "p=u": new = ("p", U[j])
        elif o == "u=p": new = ("u", P[j])
        elif o == "p=s": new = ("p", S[j] * 10**6)
        elif o in ("p=b", "p.b"): new = ("p", bt(j))
        elif o in ("p+u", "p+=u"): new = ("p", P[i] + U[j])
        elif o in ("p-u", "p-=u"): new = ("p", P[i] - U[j])
        elif o == "p+p": new = ("p", P[i] + P[j])
        elif o == "p=s+u": new = ("p", S[j] * 10**6 + U[i])
        elif o == "p=s-u": new = ("p", S[j] * 10**6 - U[i])
        elif o == "u=p-p": new = ("u", P[i] - P[j])
        elif o == "u=s-s": new = ("u", (S[i] - S[j]) * 10**6)
        elif o == "u=p-s": new = ("u", P[i] - S[j] * 10**6)
        elif o in ("s=p", "s(p)", "psec"):
            k = j if o != "psec" else i
            if not 0 <= P[k] < 2**32 * 10**6: continue
            if o != "psec": new = ("s", P[k] // 10**6)
        elif o == "s": new = ("s", n % 2**32)
        elif o in ("s+=n", "s+n"): new = ("s", (S[i] + n) % 2**32)
        elif o in ("s-=n", "s-n"): new = ("s", (S[i] - n) % 2**32)
        elif o in ("s+=u", "s-=u"):
            q = abs(U[j]) // 10**6 * (1 if U[j] >= 0 else -1)
            new = ("s", (S[i] + (q if o[1] == "+" else -q)) % 2**32)
        elif o == "s+=s": new = ("s", (S[i] + S[j]) % 2**32)
        elif o == "s-=s": new = ("s", (S[i] - S[j]) % 2**32)
        elif o == "smax": new = ("s", 2**32 - 1)
        elif o in ("smin", "s0"): new = ("s", 0)
        elif o == "b": new = ("b", n % 2**32)
        elif o in ("b=p", "b(p)", "b(s)"):
            t = (P[j] if o != "b(s)" else S[j] * 10**6) - E2K * 10**6
            if not 0 <= t < 2**32 * 500000: continue
            new = ("b", t // 500000)
        elif o == "bnext": new = ("b", min(2**32 - 1, L[j] + 1))
        elif o in ("bmin", "b0"): new = ("b", 0)
        elif o in ("w", "w=n"): new = ("w", n % 2**32)
        elif o == "w=n64":
            if not -2**31 <= n < 2**31: continue
            new = ("w", n % 2**32)
        elif o in ("++w", "w++"):
            if g["w"][i] == 2**31 - 1: continue
            new = ("w", (g["w"][i] + 1) % 2**32)
        elif o in ("v", "v="): new = ("v", n % 2**32)
        elif o == "v64":
            if not 0 <= n < 2**32: continue
            new = ("v", n)
        elif o == "v=v": new = ("v", g["v"][j])
        elif o == "w=v":
            if g["v"][j] >= 2**31: continue
            new = ("w", g["v"][j])
        if new:
            if new[0] in "up" and not -2**63 <= new[1] < 2**63: continue
            g[new[0]][i] = new[1]
        yield op, i + 1, j + 1, x
