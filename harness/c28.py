"""C28 the JSON token reader hands out every token once"""
import json, os, tempfile
TEXTS = ['{"a":[null,true]}', '["x",-1.5e3,{}]', ' [ ] ', 'false', '{"":"","b":false}', '"\\u00e9\\n"', '{"k":{"k":null}}']
OPS = "peExbsokmCcAaZzNn"
RIGHT = {"{": "ok", "}": "Cc", "[": "Aa", "]": "Zz", "k": "km", "s": "s", "b": "b", "n": "nN"}
STR = ["", "a", "abc", "\\n", "\\\\", "\\\"", "\u00e9", "\\u00e9", "\\u0001", "\\ud83d\\ude00", "\U0001f600", "a" * 40, "x\\ty", "null", "{", "]", "\u20ac\\/", "\x7f", "\u07ff\u0800\uffff"]
NUMS = ["0", "-0", "1", "-1", "10", "1.5", "1e5", "1E+5", "1e-5", "-0.0e0", "18446744073709551616", "123456789012345678901234567890"]
WSP = ["", "", "", "", " ", "\n", "\t ", "\r\n"]
def value(r, d):
    k = r.randrange(9 if d > 0 else 5)
    w = lambda: r.choice(WSP)
    if k <= 1: return '"%s"' % "".join(r.choice(STR) for _ in range(r.choice([1, 1, 2]))), ["s"]
    if k == 2: return r.choice(NUMS), ["s"]
    if k == 3: return r.choice(["true", "false"]), ["b"]
    if k == 4: return "null", ["n"]
    n = r.choice([0, 1, 1, 2, 3])
    if k <= 6:
        p = [value(r, d - 1) for _ in range(n)]
        return "[" + w() + ("," + w()).join(x + w() for x, _ in p) + "]", ["["] + [t for _, e in p for t in e] + ["]"]
    p = [(r.choice(STR), value(r, d - 1)) for _ in range(n)]
    return "{" + w() + ("," + w()).join('"%s"%s:%s%s%s' % (q, w(), w(), x, w()) for q, (x, _) in p) + "}", ["{"] + [t for _, (_, e) in p for t in ["k"] + e] + ["}"]
def calls(r, ev, wrong):
    s = ""
    for t in ev:
        while r.random() < wrong: s += r.choice([x for x in OPS if x not in "e" and x not in RIGHT[t] and not (t == "{" and x == "o") and not (t == "k" and x in "km")] if r.random() < .9 else "px")
        s += "pe" if r.random() < .15 else r.choice([x for x in RIGHT[t] if not (t == "{" and x != "o")])
    return s
def broken(r, t):
    k = r.randrange(6); i = r.randrange(len(t) + 1)
    if k == 0: return t[:i]
    if k == 1: return t[:i] + r.choice(["x", ",", "]", "}", "{", "[", "\"", ":", "1", "\\", "\x01", "nul", "-", ".", "e", "\\u12", "\\ud800", "\\q"]) + t[i:]
    if k == 2: return t[:i] + t[i + 1:]
    if k == 3: return t + r.choice(["1", "{}", "]", "}", ",", "null", "x", "\"\""])
    if k == 4: return t[:i] + r.choice([b"\xff", b"\xc0\x80", b"\xed\xa0\x80", b"\xe2\x82", b"\xf4\x90\x80\x80"]).decode("latin1") + t[i:]
    return t[:i] + t[:i]
def run(c):
    r = c.rng
    n = c.pick(3, 4)
    fd, p = tempfile.mkstemp(suffix=".json", prefix="verif_")
    with os.fdopen(fd, "w") as f: json.dump([list(t.encode()) for t in TEXTS], f)
    try: got = c.mc("MC_Tokens", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS InOrder AtEnd Same Honest\nPROPERTY Refused\nCONSTANT MaxOps = %d\n" % n, env={"SETUP": p, "MC": str(n)}, timeout=3000)
    finally: os.unlink(p)
    cases = [(bytes(x["t"]), "".join(x["o"]), "") for x in got]
    r.shuffle(cases); cases = cases[:c.pick(3000, 30000)]
    for _ in range(c.pick(5000, 50000)):
        t, ev = value(r, r.choice([0, 1, 2, 3, 4]))
        t = r.choice(WSP) + t + r.choice(WSP)
        b = t.encode()
        m = r.random()
        if m < .55: s = calls(r, ev, r.choice([0, .1, .3])) + r.choice(["", "E", "xE", "pE", "EE", "pxsE"])
        elif m < .7: s = "".join(r.choice(OPS) for _ in range(r.choice([3, 10, 30])))
        elif m < .8: s = "pe" * (len(ev) + r.randrange(3)) + "xE"
        else:
            b = broken(r, t)
            try: b = b.encode("latin1") if any(127 < ord(x) < 256 for x in b) else b.encode()
            except UnicodeEncodeError: b = b.encode()
            s = r.choice([calls(r, ev, 0) + "xE", "pe" * (len(ev) + 3) + "xE", "pxe" * (len(ev) + 2) + "xE"])
        if b"\0" not in b: cases.append((b, s, "1" if m >= .8 else r.choice(["", "", "", "1"])))
    # nested deeper than any conversion allows: the reader itself has no such limit
    for n in c.pick([130, 300], [130, 300, 1500]):
        cases.append((b"[" * n + b"]" * n, "A" * n + "Z" * n + "xE", "")); cases.append((b'{"k":' * n + b"1" + b"}" * n, "ok" * n + "s" + "C" * n + "E", ""))
        cases.append((b"[" * n + b"]" * (n - 1), "A" * n + "Z" * (n - 1) + "zxE", "1"))
    c.conform(["tokens.cpp"], "T_Tokens", "TokensJudge", [("tokens", [t, s.encode(), f.encode()]) for t, s, f in cases], per_op=20)
    return c.finish("texts and call sequences, those of the model and random ones")
