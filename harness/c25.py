"""C25 contexts are isolated: what they hand out stays put, and threads do not disturb each other"""
import c06
from c06 import *
def one(r, ks, lib, calls, n):
    """calls on the contexts of ks; what has been loaded is remembered, so that conversions mostly have something to convert"""
    s = []; ds = {}
    for k in ks:
        if r.random() < .8: d = r.choice(lib); ds[k] = d; s += load(r, k, A1, d)
    for _ in range(n):
        k = r.choice(ks); m = r.random()
        if m < .1: d = r.choice(lib); ds[k] = d; s += load(r, k, r.choice([A1, A1, A2]), d)
        elif m < .15: s += [b"new", bytes([k]), bytes(8), b"", b""]; ds.pop(k, None)
        elif m < .27: s += [b"name_to_string", bytes([k]), r.choice([r.randbytes(8), A2, nb("a"), nb("zzzzzzzzzzzzj"), nb("other.name")]), b"", b""]
        elif m < .3: s += [b"string_to_name", bytes([k]), bytes(8), r.choice([b"", b"eosio", b"a.b"]), b""]
        elif m < .34: s += [b"json_to_bin", b"\xff", A1, b"S", b"5"]
        elif k in ds and m < .75:
            d = ds[k]; t = r.choice(roots(r, d, 1)); v = fitting(r, d, t); b = fitting_bin(r, d, t, False)
            if v is not None and r.random() < .5: s += [r.choice([b"json_to_bin", b"json_to_bin_reorderable"]), bytes([k]), A1, t.encode(), render(r, v if r.random() < .7 else mutate(r, v)).replace(b"\0", b"")]
            elif b is not None and not endless(Types(d), t): s += [b"bin_to_json", bytes([k]), A1, t.encode(), b if r.random() < .7 else hurt(r, b)]
        else: s += probes(r, k, r.choice([A1, A1, A2]), 1)
    return s
def hist(h, calls, lib):
    s = []
    for i in h:
        x = calls[i - 1]; s += [x["op"].encode(), bytes([x["ctx"]]), x["contract"], lib[x["ref"] - 1][1] if x["ref"] else x["a"], x["b"]]
    return s
def run(c):
    r = c.rng
    good, bad = abis()
    lib = [("set_abi", jtext(good[0])), ("set_abi_bin", bintext(good[1]))]
    # two contexts: every history of a few calls, after each of which everything handed out is read again
    calls = []
    for k in (0, 1):
        j = lambda op, a=b"", b=b"", ref=0, at=A1: calls.append({"op": op, "ctx": k, "contract": at, "a": a, "b": b, "ref": ref})
        j("set_abi", ref=1); j("set_abi_bin", ref=2)
        j("json_to_bin", b"S", b'{"a":1,"b":2}'); j("json_to_bin", b"S", b"{"); j("bin_to_json", b"S", b"\1\2\0"); j("bin_to_json", b"S", b"\1x")
        j("action", nb("act")); j("table", nb("zz")); j("name_to_string", at=nb("zzzzzzzzzzzzj")); j("name_to_string", at=nb("a")); j("new"); j("bin")
    from core import jbytes
    fd, p = tempfile.mkstemp(prefix="verif_setup_", suffix=".json"); os.close(fd)
    cases = []
    try:
        json.dump(jbytes({"abis": [(f.encode(), d) for f, d in lib], "calls": calls}), open(p, "w"))
        for n in c.pick((2, 3), (2, 3, 4)):
            em = c.mc("MC_Held", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Kept Sound\nCONSTANT MaxCalls = %d\n" % n, env={"SETUP": p, "MC": str(n)}, timeout=3000)
            em = [list(h) for h in sorted({tuple(h) for h in em})]
            for h in (em if n < 3 else sample(r, em, c.pick(2500, 20000))): cases.append(("held", hist(h, calls, lib)))
    finally: os.unlink(p)
    more = rnd_abis(c, c.pick(6, 40))
    for _ in range(c.pick(250, 4000)): cases.append(("held", one(r, [0, 1, 2], good + more, calls, r.randrange(4, 25))))
    c.conform(["context.cpp"], "T_Context", None, cases, enc=enc)
    # threads, under ThreadSanitizer, each with contexts of its own
    cases = []
    for _ in range(c.pick(60, 1200)):
        n = r.choice([2, 3, 4, 4])
        ss = [one(r, [0, 1][:r.randrange(1, 3)], good + more, calls, r.randrange(6, 30)) for _ in range(n)]
        if r.random() < .3: ss = [ss[0]] * n
        cases.append(("threads", [b"".join(len(s).to_bytes(2, "little") for s in ss)] + [y for s in ss for y in s]))
    c.conform(["context.cpp"], "T_Context", None, cases, enc=enc, san="thread", per_op=60)
    # the rest of the library used on several threads at once
    cases = []
    for _ in range(c.pick(40, 600)):
        l = []
        for _ in range(r.randrange(4, 20)):
            op, a = r.choice(TOGETHER)(r)
            l += [op.encode(), bytes([len(a)])] + list(a)
        cases.append(("together", l))
    c.conform(["context.cpp", "names.cpp", "floats.cpp", "crypto.cpp", "ripemd.cpp", "symasset.cpp", "times.cpp", "ints.cpp"], "T_Together", "TogetherJudge", cases, san="thread", per_op=60)
    return c.finish("every history of up to %d out of %d calls on two contexts, everything handed out read again after every call; long random sessions on three contexts; 2 to 4 threads at a time running such sessions (and conversions of names, floats, keys, times, assets) under ThreadSanitizer" % (c.pick(3, 4), len(calls)))
B8 = lambda r: r.choice([r.randbytes(8), r.randrange(2**40).to_bytes(8, "little"), A2])
TOGETHER = [lambda r: ("name_str", [B8(r)]), lambda r: ("name_lenient", [r.choice([b"eosio.token", b"a", b"zzzzzzzzzzzzj", b"Q?"])]), lambda r: ("name_hash", [r.randbytes(r.randrange(20))]),
            lambda r: ("name_parts", [B8(r)]), lambda r: ("name_to_json", [B8(r)]),
            lambda r: ("flt_print", [b"float64", r.randbytes(8)]), lambda r: ("flt_parse", [b"float64", r.choice([b"1.5", b'"-2e-300"', b"1e309", b"0.1", b"x"])]),
            lambda r: ("b58_enc", [r.randbytes(r.randrange(40))]), lambda r: ("b58_dec", [r.choice([b"1112", b"zz9", b"l0", b"StV1DL6CwTryKyV"])]),
            lambda r: ("rmd", [r.randbytes(r.randrange(100)), r.randbytes(r.randrange(100))]), lambda r: ("code_parse", [r.choice([b"EOS", b"A", b"TOOLONGX", b"eos"])]),
            lambda r: ("asset_string", [r.choice([b"1.0000 EOS", b"-7 X", b"1.", b"99999999999999.9 ABC"])]), lambda r: ("asset_print", [B8(r), bytes([r.randrange(19)]) + b"EOS\0\0\0\0"]),
            lambda r: ("tp_print", [r.randrange(2**50).to_bytes(8, "little")]), lambda r: ("tp_parse", [r.choice([b"2018-06-15T19:17:47.123", b"2000-02-29T00:00:00", b"2000-13-01T00:00:00"])]),
            lambda r: ("dec_to_bin", [bytes([8]), r.choice([b"12345678901234567890", b"99999999999999999999", b"0"])])]
