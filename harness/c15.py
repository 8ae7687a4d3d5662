"""C15 symbol and asset texts"""
from sym import *
def run(c):
    r = c.rng
    cases = []
    T = ["", " ", "1", "-", ".", "1.", "EOS", "1 EOS", "1EOS", " 1 EOS", "1  EOS", "1 EOS ", "-1 EOS", "--1 EOS", "- 1 EOS", "+1 EOS", "1. EOS", ".1 EOS", "-.5 EOS", "1.0.0 EOS", "1,0 EOS", "1.5EOS", "1 eos", "1 EOSa", "1 EOS1", "1 EO S", "1 ABCDEFG", "1 ABCDEFGH",
         "9223372036854775807 A", "9223372036854775808 A", "-9223372036854775808 A", "-9223372036854775809 A", "18446744073709551615 A", "18446744073709551616 A", "922337203685477580.7 A", "922337203685477580.8 A", "-922337203685477580.8 A", "4611686018427387903 A", "4611686018427387904 A", "-4611686018427387904 A", "-4611686018427387903 A",
         "0." + "0" * 255 + " A", "0." + "0" * 256 + " A", "1." + "0" * 18 + " A", "1." + "0" * 19 + " A", "0" * 30 + "1 A", "00.10 A", "-0 A", "-0.00 A", "1\tEOS", "1 @", "1 [", "1 A@", "1 Z[", "99999999999999999999 A", "1/ A", "1: A"]
    S = ["", ",", "4,", "4,EOS", ",EOS", "4EOS", "4, EOS", " 4,EOS", "4 ,EOS", "4,EOS ", "255,A", "256,A", "257,A", "0,A", "00,A", "0004,A", "999,A", "65536,A", "260,EOS", "4,ABCDEFG", "4,ABCDEFGH", "4,eos", "4,EO1", "4,EOS,", "-4,EOS", "+4,EOS", "4.0,EOS", "4,E S", "4;EOS", "4,@", "4,[", "4294967296,A", "4294967300,EOS", "18,SYS"]
    C = ["", " ", "A", "Z", "ABCDEFG", "ABCDEFGH", "AB CD", "ab", "A1", " A", "  EOS", "EOS ", "@", "[", "A.", "EOS\x7f"]
    for _ in range(c.pick(700, 15000)):
        p = r.choice([0, 1, 4, 4, 8, 18, 19, 20, 30, 255, r.randrange(25)])
        am = amount(r)
        t = text(am, p) + r.choice([" ", " ", " ", "", "  "]) + code(r)
        T.append(t); T.append(mut(r, t))
        s = r.choice(["", "0"]) + "%d" % r.choice([p, r.randrange(300)]) + "," + code(r)
        S.append(s); S.append(mut(r, s))
        k = code(r); C.append(k); C.append(mut(r, k))
    em = c.mc("MC_SymAsset", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Agree Value RoundTrip\nCONSTANT MaxLen = %d\n" % c.pick(4, 6))
    for x in em:
        if len(x["text"]) < 4 or x["live"] and r.random() < .7 or r.random() < .15: T.append(bytes(x["text"]).decode())
    for lst, ops, ty in ((T, ["asset_parse", "asset_json", "asset_string", "asset_pos"], b"asset"), (S, ["sym_parse", "sym_json", "sym_pos"], b"symbol"), (C, ["code_parse", "code_json", "code_ctor"], b"symbol_code")):
        for t in lst:
            b = t.encode("latin1")
            plain = all(32 <= x < 127 and x not in b'"\\' for x in b)
            for op in ops:
                if (plain or not op.endswith("json")) and r.random() < .6: cases.append((op, [b]))
            if plain and r.random() < .3: cases.append(("sa_abi", [ty, b]))
    for _ in range(c.pick(600, 8000)):
        k = code(r)
        sym = symb(r.choice([0, 1, 4, 18, 19, 20, 21, 255, r.randrange(256)]), k)
        cases += [("code_print", [k.encode().ljust(8, b"\0")]), ("sym_print", [sym]), ("asset_print", [P8(amount(r)), sym])]
        if r.random() < .2: cases.append(("ext_print", [P8(amount(r)), sym, r.getrandbits(64).to_bytes(8, "little")]))
        v = bytearray(k.encode().ljust(7, b"\0"))
        if r.random() < .7: v[r.randrange(7)] = r.choice([0, 1, 64, 65, 90, 91, 97, 255])
        cases += [("code_valid", [bytes(v) + bytes([r.choice([0, 0, 0, 1, 64, 65, 90, 91, 255])])]), ("sym_cmp", [sym, r.choice([sym, symb(r.randrange(256), code(r)), symb(sym[0], code(r))])])]
    for b in range(256):
        cases += [("code_valid", [bytes([b]) + b"B\0\0\0\0\0\0"]), ("code_valid", [b"A" + bytes([b]) + b"\0\0\0\0\0\0"]), ("code_valid", [b"ABCDEF" + bytes([b, 0])]), ("code_valid", [b"ABCDEFG" + bytes([b])]), ("code_valid", [b"AB\0\0\0\0\0" + bytes([b])]), ("code_valid", [b"A\0\0\0\0\0" + bytes([b, 0])])]
    c.conform(["symasset.cpp"], "T_SymAsset", "SymAssetJudge", cases)
    return c.finish("every asset text of up to %d characters over an 8-letter alphabet (TLC), plus boundary amounts and precisions, single-edit mutations and random values; C++ and C API" % c.pick(4, 6))
