"""C27 the command-line tool converts everything it is given, and says what it could not"""
import core
U64 = [0, 1, 2, 7, 8, 15, 16, 31, 32, 255, 6138663577826885632, 14829575313431724032, (1 << 64) - 1, 1 << 63, (1 << 63) - 1, 1 << 60, 16, 0xf]
AL = ".12345abcdefghijklmnopqrstuvwxyz"
def name(r):
    n = r.choice([0, 1, 2, 5, 11, 12, 12, 13, 13])
    s = "".join(r.choice(AL) for _ in range(n))
    return s
def badname(r):
    s = name(r)
    k = r.randrange(5)
    if k == 0: return (s + "a" * 14)[:14]
    if k == 1: return (s + "a" * 13)[:12] + r.choice("klmnopqrstuvwxyz")
    i = r.randrange(len(s) + 1)
    return s[:i] + r.choice(["A", "6", "0", " ", "\t", "_", "\u00e9", "/", "`", "{", "-", "\x7f"]) + s[i:]
def num(r):
    v = r.choice([r.choice(U64), r.getrandbits(64), r.getrandbits(r.randrange(1, 65)), 1 << r.randrange(64)])
    return r.choice(["%d" % v, "0x%x" % v, "0X%X" % v, "0%o" % v, "0x%016x" % v, "%d" % v])
def badnum(r):
    return r.choice(["", "x", "1x", "0x", "0xg", "08", "019", "1.0", "1e3", "18446744073709551616", "0x10000000000000000", "02000000000000000000000", "1 ", "1,2", "abc", "eosio", "0x 1", "1\u00b2", "99999999999999999999999", "1_0", "1u"])
def item(r, tonum):
    return (r.choice([name, name, name, badname, num]) if tonum else r.choice([num, num, num, badnum, name]))(r)
OPT = ["-r", "-x", "-d", "--reverse", "--hex", "--dec", "-rx", "-dr", "-xd", "-dx", "-rr", "-rrr", "-dxr"]
BADOPT = ["-h", "--help", "-q", "-rh", "--", "--revers", "--hexx", "--HEX", "-R", "-r-", "-1", "---", "--r", "-xdq"]
PROG = ["name2num", "num2name", "./name2num", "/usr/bin/num2name", "name", "tools/name2num", "name2num.exe", "namenum", "name2nu"]
def run(c):
    r = c.rng
    n = c.pick(2, 3)
    cases = []
    got = c.mc("MC_NameTool", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS AsSaid Anywhere Again Counted\nCONSTANT MaxArgs = %d\n" % n, timeout=3000)
    for x in got: cases.append((bytes(x["p"]), bytes(x["i"]), [bytes(a) for a in x["a"]]))
    r.shuffle(cases); cases = cases[:c.pick(1500, 9000)]
    for _ in range(c.pick(1500, 12000)):
        p = r.choice(PROG); opts = [r.choice(OPT) for _ in range(r.choice([0, 0, 1, 1, 2, 3]))]
        if r.random() < .06: opts.append(r.choice(BADOPT))
        tonum = ("name2num" in p) != (sum(o.count("r") if o[1] != "-" else o == "--reverse" for o in opts) % 2 == 1)
        its = [item(r, tonum).encode() for _ in range(r.choice([0, 0, 1, 2, 3, 8]))]
        if tonum is False and r.random() < .9: its = [x for x in its if x[:1] not in (b" ", b"\t", b"-", b"+")]
        lines = b"".join(item(r, tonum).encode() + b"\n" for _ in range(r.choice([0, 1, 3, 10, 40]))) 
        if lines and r.random() < .3: lines = lines[:-1]
        if r.random() < .05: lines += r.choice([b"\0", b"a\0b\n", b"\n\n", b"1\r\n", b"a\r\n"])
        if its and r.random() < .7: lines = b""
        a = [o.encode() for o in opts] + [x for x in its if x[:1] != b"-"]
        r.shuffle(a)
        cases.append((p.encode(), lines, a))
    # many at once
    for k in (1, 0):
        its = [item(r, k).encode() for _ in range(c.pick(300, 1500))]
        its = [x for x in its if x[:1] not in (b" ", b"\t", b"-", b"+") and b"\n" not in x]
        cases.append((b"name2num" if k else b"num2name", b"", its))
        cases.append((b"name2num" if k else b"num2name", b"\n".join(its), []))
    c.conform(["tool.cpp"], "T_NameTool", "NameToolJudge", [("name_tool", [p, i] + a) for p, i, a in cases], per_op=20)
    return c.finish("command lines and inputs of the tool, those of the model and random ones")
