"""C05 an ABI is accepted iff it is well formed"""
from abigen import *
def from_model(x):
    d = x["d"]; s = lambda b: bytes(b).decode()
    return {"version": s(d["version"]), "types": [(s(t["n"]), s(t["t"])) for t in d["types"]], "structs": [(s(t["n"]), s(t["b"]), [(s(f["n"]), s(f["t"])) for f in t["f"]]) for t in d["structs"]],
            "actions": [], "tables": [], "variants": [(s(t["n"]), [s(x) for x in t["ts"]]) for t in d["variants"]]}
def run(c):
    r = c.rng
    cases = []
    def add(d, q=None, fmt=None):
        fmt = fmt or r.choice(["json", "bin", "hex"])
        data = jtext(d) if fmt == "json" else bintext(d, r.choice(["all", "min"]))
        if fmt == "hex": data = data.hex().encode() if r.random() < .5 else data.hex().upper().encode()
        cases.append(("abi_load", [fmt.encode(), data] + (q if q is not None else queries(r, d))))
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Resolves Closed Reads\nCONSTANTS Steps = %d\nRich = %s\n"
    em = c.mc("MC_Abi", cfg % (2, "TRUE"))
    em3 = c.mc("MC_Abi", cfg % (3, "FALSE"))
    if c.thorough(): em += c.mc("MC_Abi", cfg % (3, "TRUE"), timeout=3000)
    for x in em: 
        if r.random() < c.pick(.5, .4): add(from_model(x))
    for x in r.sample(em3, min(len(em3), c.pick(500, 8000))): add(from_model(x))
    for _ in range(c.pick(400, 6000)):
        d = gen(r); add(d)
    for kind in ("alias", "base", "aliasopt", "basealias", "ring", "basering"):
        for order in ("up", "down", "mix"):
            for n in (1, 2, 3, 15, 30, 31, 32, 33, 34, 40, 64):
                if n > 3 and n < 30 and r.random() < .5: continue
                d = chain(r, n, kind, order)
                if order == "mix": r.shuffle(d["types"]); r.shuffle(d["structs"])
                names = names_of(d)
                add(d, [b"t" + x.encode() for x in (names[0], names[-1], names[0] + "[]", names[n // 2] + "$")])
    # names with long chains of suffixes
    for n in (1, 2, 30, 31, 32, 33, 100):
        add(new(), [b"tint8" + s * n for s in (b"?", b"[]", b"$", b"?$")])
    one = new(); one["structs"].append(("S", "", [("a", "S[]"), ("b", "S?")])); add(one, [b"tS", b"tS[]", b"tS[]$", b"tS$", b"tS?$"])
    for _ in range(c.pick(2, 20)):
        d = gen(r, 40, 0.0); add(d)
    c.conform(["abi.cpp"], "T_Abi", "AbiJudge", cases)
    return c.finish("every definition of up to %d pieces over a small pool of names and type expressions (TLC; resolution against the declarative reading), replayed in all three formats, plus random definitions, cycles and chains around the depth limit" % c.pick(3, 3))
