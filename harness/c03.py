"""C03 JSON to binary with members in any order"""
from cases import *
def run(c):
    r = c.rng
    cases = []
    def add(t, root, text):
        cases.append(("reox" if b"\0" in text else r.choice(["reo", "reo", "reox"]), [t, root, text]))
    for which in (small(), exts()):
        for x in some(r, model_docs(c, which, c.pick(7, 9)), lambda x: x[4], c.pick(500, 8000), c.pick(200, 8000)): add(*x[:3])
    for d, t in pool(c, c.pick(30, 500)):
        tx = jtext(d)
        for _ in range(c.pick(2, 4)):
            v = fitting(r, d, t)
            if v is None: continue
            for _ in range(2): add(tx, t.encode(), render(r, permute(r, v)))
            add(tx, t.encode(), render(r, permute(r, mutate(r, v))))
            add(tx, t.encode(), render(r, mutate(r, permute(r, v))))
            if r.random() < .3: add(tx, t.encode(), spoil(r, render(r, v)))
    # all orders of a struct with five members, inherited ones included, with and without its extensions
    import itertools
    d = new(); d["structs"] = [("Z", "", [("z", "int8"), ("y", "bool")]), ("Y", "Z", [("a", "string"), ("e", "Z?$"), ("f", "int8$")])]
    tx = jtext(d); ms = [["z", Raw("1")], ["y", Raw("true")], ["a", Raw('"q"')], ["e", Obj([["y", Raw("false")], ["z", Raw("2")]])], ["f", Raw("3")]]
    for k in (3, 4, 5):
        for p in itertools.permutations(ms[:k]):
            if k < 5 or r.random() < c.pick(.4, 1): add(tx, b"Y", render(r, Obj(list(map(list, p)))))
    add(tx, b"Y", render(r, Obj(ms[:3] + [ms[4]])))
    tx, es = ext_places()
    for t, j, b in es: add(tx, t.encode(), j)
    for k in "SOVX":
        for n in (1, 2, 3, 64, 126, 127, 128, 129, 130, 200):
            d, t, s, b = nest(n, k)
            add(jtext(d), t.encode(), s.encode())
    for n in (126, 127, 128, 129, 1000): # unknown members nested deeply
        for o, cl in (("[", "]"), ('{"q":', "}")):
            add(tx, b"Z", ('{"u":' + o * (n - 1) + ("1" if o != "[" else "") + cl * (n - 1) + ',"y":true,"z":1}').encode())
    d = rich(); tx = jtext(d)
    for t in ("nope", "", "int8??", "tree[][]", "tree$$", "int8"): add(tx, t.encode(), b"1")
    tx, ws = wide_cases(r)
    for t, j, b in ws: add(tx, t.encode(), j.encode())
    ms = ws[-1][1][1:-1].split(","); r.shuffle(ms); add(tx, b"W", ("{" + ",".join(ms) + "}").encode())
    add(tx, b"W", ("{" + ",".join(ms[1:]) + "}").encode()); add(tx, b"W", ("{" + ",".join(ms + ms[:9]) + "}").encode())
    cases += big_cases(r, c.pick(20, 40))
    c.conform(["codec.cpp"], "T_Codec", "CodecJudge", cases, abis=True)
    return c.finish("every document of up to %d tokens for 17 root types (TLC: machine that finds members by name against the declarative codec; ordered and order-insensitive agree), replayed; random documents with permuted, unknown, repeated, missing members, other kinds of values, damaged text, nesting around 128" % c.pick(7, 9))
