"""C01 JSON to binary, members in declared order"""
from cases import *
def run(c):
    r = c.rng
    cases = []
    def add(t, root, text):
        op = "ordx" if b"\0" in text else r.choice(["ord", "ord", "ordx"])
        cases.append((op, [t, root, text]))
    for which in (small(), exts()):
        for x in some(r, model_docs(c, which, c.pick(7, 9)), lambda x: x[3], c.pick(400, 8000), c.pick(400, 8000)): add(*x[:3])
    for d, t in pool(c, c.pick(35, 500)):
        tx = jtext(d)
        for _ in range(c.pick(2, 4)):
            v = fitting(r, d, t)
            if v is None: continue
            s = render(r, v); add(tx, t.encode(), s)
            for _ in range(2): add(tx, t.encode(), render(r, mutate(r, v)))
            if r.random() < .4: add(tx, t.encode(), spoil(r, s))
    for k in "SOVX":
        for n in (1, 2, 3, 64, 126, 127, 128, 129, 130, 200):
            d, t, s, b = nest(n, k)
            add(jtext(d), t.encode(), s.encode())
    d = rich(); tx = jtext(d)
    for t in ("nope", "", "int8??", "tree[][]", "tree$$", "int8"): add(tx, t.encode(), b"1")
    for n in (127, 128, 129, 300): add(tx, b"int8[]", b"[" + b",".join([b"1"] * n) + b"]")
    tx, ws = wide_cases(r)
    for t, j, b in ws: add(tx, t.encode(), j.encode())
    for j in (ws[-1][1].replace('"f130":', '"f131":'), ws[-1][1][:-1] + ',"f140":1}', '["a140",1]', '["a-1",1]'): add(tx, b"W" if j[0] == "{" else b"V", j.encode())
    cases += big_cases(r, c.pick(40, 40))
    c.conform(["codec.cpp"], "T_Codec", "CodecJudge", cases, abis=True)
    return c.finish("every document of up to %d tokens for 17 root types (TLC: stack machine against the declarative codec), replayed; random documents for random ABIs and one with every scalar type, with members dropped, renamed, repeated, reordered, values of other kinds, damaged text, nesting around 128" % c.pick(7, 9))
