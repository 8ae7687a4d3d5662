"""C30 the hook of a conversion"""
from cases import *
def n4(n): return n.to_bytes(4, "little")
def run(c):
    r = c.rng
    cases, ends = [], []
    def add(tx, root, way, b):
        cases.append(("hook", [tx, root, bytes([way]), b, n4(r.choice([0, 0, 1, 2, 3, r.randrange(100), r.randrange(10 ** 6)])), bytes([r.randrange(3)])]))
    for which in (small(), exts()):
        d, rs = which
        rs = [x for x in rs if x != "E[]"]
        p = setup(d, rs)
        try: em = c.mc("MC_Hook", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Enough Throughout Changes\nPROPERTY Ended\nCONSTANT MaxLen = %d\n" % c.pick(3, 5), env={"SETUP": p, "MC": rs[0]}, timeout=3000)
        finally: os.unlink(p)
        tx = jtext(d)
        for x in sample(r, [x for x in em if x["ok"]], c.pick(500, 6000)) + sample(r, [x for x in em if not x["ok"]], c.pick(150, 3000)):
            add(tx, bytes(x["root"]), 2, bytes(x["s"]))
        for x in some(r, model_docs(c, which, c.pick(5, 7)), lambda x: x[3], c.pick(200, 3000), c.pick(60, 2000)): add(x[0], x[1], r.randrange(2), x[2])
    for d, t in pool(c, c.pick(40, 500)):
        tx = jtext(d)
        for _ in range(c.pick(2, 4)):
            v = fitting(r, d, t)
            if v is not None:
                s = render(r, v)
                if b"\0" not in s: add(tx, t.encode(), 0, s)
                s = render(r, permute(r, mutate(r, v) if r.random() < .2 else v))
                if b"\0" not in s: add(tx, t.encode(), 1, s)
            b = fitting_bin(r, d, t, r.random() < .6)
            if b is None: continue
            add(tx, t.encode(), 2, b)
            if not endless(Types(d), t): add(tx, t.encode(), 2, hurt(r, b))
    for k in "SOVX":
        for n in (1, 2, 3, 64, 126, 127, 128, 129, 130, 200):
            d, t, s, b = nest(n, k)
            for way, x in ((0, s.encode()), (1, s.encode()), (2, b)): add(jtext(d), t.encode(), way, x)
    d = new(); d["structs"] = [("E", "", []), ("B", "", [("a", "int8[]"), ("e", "E[]"), ("s", "string[]")]), ("X", "", [("a", "int8$"), ("b", "E$"), ("c", "int8[]$")])]; d["variants"] = [("V", ["E", "V[]", "int8"])]
    tx = jtext(d)
    for n in (0, 1, 2, 63, 64, 65, 200, 900):
        add(tx, b"int8[]", 2, vu(n) + b"\7" * n)
        for way in (0, 1): add(tx, b"uint16[]", way, b"[" + b",".join([b"7"] * n) + b"]")
        add(tx, b"string[]", 2, vu(n) + b"".join(vu(k % 5) + b"x" * (k % 5) for k in range(n)))
        add(tx, b"E[]", 2, vu(n))
        for way in (0, 1): add(tx, b"E[]", way, b"[" + b",".join([b"{}"] * n) + b"]")
        add(tx, b"V[]", 2, vu(n) + bytes([0]) * n); add(tx, b"V[]", 2, vu(n) + bytes([1, 0]) * n)
    for n in (0, 1, 2, 4): add(tx, b"X", 2, bytes(n))
    for way in (0, 1):
        for s in (b"{}", b'{"a":1}', b'{"a":1,"b":{}}', b'{"a":1,"b":{},"c":[1,2]}'): add(tx, b"X", way, s)
    for t in (b"int8", b"string", b"int8?", b"nope", b"int8$"):
        for way, x in ((0, b'"1"'), (1, b'"1"'), (2, b"\1\1"), (2, b"\1")): add(tx, t, way, x)
    for t, b in ((b"E[]", b"\xff\xff\xff\xff\x0f"), (b"E[]", b"\x80\x80\x80\x80\x08"), (b"B", b"\0\xff\xff\xff\xff\x0f"), (b"V[]", b"\1\1\xff\xff\xff\xff\x0f" + b"\1\xff\xff\xff\xff\x0f")):
        for k in (1, 2, 3, 1000, 50000):
            if t != b"V[]" or k < 4: cases.append(("endless", [tx, t, b, n4(k)]))
    c.conform(["hook.cpp"], "T_Hook", "HookJudge", cases, abis=True)
    return c.finish("the two machines with a hook under every stop, for every binary of up to %d bytes over {0,1,2,128} and its document; random documents and binaries of random types, damaged ones, nesting around 128, counts without end" % c.pick(3, 5))
