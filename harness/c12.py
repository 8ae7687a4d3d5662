"""C12 keys and signatures"""
import hashlib
from ripe import ripemd160 as ripemd
B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
def enc(b):
    n, t = int.from_bytes(b, "big"), ""
    while n: n, d = divmod(n, 58); t = B58[d] + t
    return "1" * (len(b) - len(b.lstrip(b"\0"))) + t
def dec(t):
    n = 0
    for ch in t: n = n * 58 + B58.index(ch)
    return b"\0" * (len(t) - len(t.lstrip("1"))) + (n.to_bytes((n.bit_length() + 7) // 8, "big") if n else b"")
def sized(b): return (bytes([len(b)]) if len(b) < 128 else bytes([len(b) & 127 | 128, len(b) >> 7])) + b
LEN = {"pub": 33, "pvt": 32, "sig": 65}
PRE = {"pub": "PUB_", "pvt": "PVT_", "sig": "SIG_"}
KN = ["K1", "R1", "WA"]
def value(r, fam, k):
    raw = lambda n: bytes(r.choice([0, 255, r.randrange(256)]) if r.random() < .2 else r.randrange(256) for _ in range(n))
    b = raw(LEN[fam])
    m = r.random()
    if m < .08: b = bytes(len(b))
    elif m < .16: b = b"\xff" * len(b)
    elif m < .3: b = bytes(r.randrange(1, 6)) + b[5:]; b = b[:LEN[fam]].ljust(LEN[fam], b"\7")
    if k == 2:
        if fam == "pub": b += bytes([r.choice([0, 1, 2, 3, 255])]) + sized(raw(r.choice([0, 1, 5, 11, 30, 127, 128, 140])))
        else: b += sized(raw(r.choice([0, 1, 37, 127, 128]))) + sized(raw(r.choice([0, 1, 20, 80])))
    return bytes([k]) + b
def text(fam, k, body, suffix=None, prefix=None):
    s = KN[k] if suffix is None else suffix
    return (PRE[fam] + KN[k] + "_" if prefix is None else prefix) + enc(body + ripemd(body + s.encode())[:4])
def run(c):
    r = c.rng
    cases = []
    for x in c.mc("MC_Base58", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT OneToOne\nCONSTANTS MaxBytes = 3 MaxChars = %d\n" % c.pick(4, 5)):
        if x["kind"] == "bytes": cases.append(("b58_enc", [bytes(x["seq"])]))
        elif len(x["seq"]) < 4 or r.random() < c.pick(.5, .4): cases.append(("b58_dec", [bytes(x["seq"])]))
    for ch in range(256):
        cases.append(("b58_dec", [bytes([ch])])); cases.append(("b58_dec", [b"2" + bytes([ch]) + b"z"]))
    for _ in range(c.pick(150, 2500)):
        b = bytes(r.choice([0, 0, 1, 2, 5])) + bytes(r.choice([0, 255, r.randrange(256)]) for _ in range(r.choice([1, 2, 7, 8, 32, 36, 37, 60, 120])))
        cases.append(("b58_enc", [b]))
        t = "1" * r.choice([0, 0, 1, 4]) + "".join(r.choice(B58) for _ in range(r.randrange(0, 60)))
        cases.append(("b58_dec", [t.encode()]))
    for fam in LEN:
        for k in range(2 if fam == "pvt" else 3):
            for it in range(c.pick(14, 200)):
                v = value(r, fam, k); body = v[1:]
                f = fam.encode()
                cases.append(("key_print", [f, v]))
                t = text(fam, k, body)
                add = lambda s: cases.append((r.choice(["key_parse", "key_parse", "key_abi"]) if all(32 <= ord(ch) < 127 and ch not in '"\\' for ch in s) else "key_parse", [f, s.encode("latin1")]))
                add(t)
                n = 7
                alter = []
                for _ in range(3): # one character altered
                    i = r.randrange(n, len(t)); alter.append(t[:i] + r.choice(B58.replace(t[i], "")) + t[i + 1:])
                alter += [t[:-1], t[:n] + t[n + 1:], t + r.choice(B58), t[:n] + "1" + t[n:], t + " ", t + "\0", " " + t, t[:n], t[:n - 1], t[:n].lower() + t[n:], t[n:]]
                alter += [t[:n + 1] + ch + t[n + 2:] for ch in r.sample("0OIl+/=_-\0\x7f\x80\xff", 2)]
                i = r.randrange(n, len(t) - 1); alter.append(t[:i] + t[i + 1] + t[i] + t[i + 2:])
                # wrong kind, wrong family, longer or shorter bodies with a right checksum
                k2 = r.randrange(3); alter.append(PRE[fam] + KN[k2] + "_" + t[n:])
                alter.append(text(fam, k, body, suffix=r.choice(["", "K1", "R1", "WA", "EOS", "k1"])))
                alter += [text(fam, k, body + b"\0"), text(fam, k, body + bytes([r.randrange(256)] * r.choice([1, 2, 5]))), text(fam, k, body[:-1]), text(fam, k, body[1:]), text(fam, k, b"\0" + body), text(fam, k, b""), text(fam, k, b"\5")]
                g = r.choice([x for x in LEN if x != fam]); alter.append(PRE[g] + t[4:])
                b2 = bytearray(dec(t[n:])); j = r.randrange(len(b2)); b2[j] ^= 1 << r.randrange(8); alter.append(t[:n] + enc(bytes(b2)))
                b2 = bytearray(dec(t[n:])); j = len(b2) - 1 - r.randrange(4); b2[j] ^= 1 << r.randrange(8); alter.append(t[:n] + enc(bytes(b2)))
                for s in (alter if c.thorough() else r.sample(alter, 9)): add(s)
                if k == 2: # overlong or lying lengths inside
                    h = 34 if fam == "pub" else 65
                    for nb in (body[:h] + bytes([body[h] | 128, 0]) + body[h + 1:], body[:h] + bytes([(body[h] + 1) & 127]) + body[h + 1:], body[:h], body[:h] + b"\xff\xff\xff\xff\x0f", body[:h] + b"\x80" * 9 + b"\1", body[:h] + b"\xff\xff\xff\xff\x7f"):
                        add(text(fam, k, nb)); cases.append(("key_decode", [f, bytes([k]) + nb]))
                if fam == "pub" and k == 0:
                    e = text(fam, k, body, "", "EOS"); add(e)
                    for s in (e[:-1], e + "1", "EOS" + t[n:], "PUB_K1_" + e[3:], e[:3] + "1" + e[3:], "EO" + e[3:], "eos" + e[3:]): add(s)
                if fam == "pvt" and k == 0:
                    w = b"\x80" + body + r.choice([b"", b"\1"]); w += hashlib.sha256(hashlib.sha256(w).digest()).digest()[:4]
                    add(enc(w)); add(enc(w[:20])); add(enc(w).replace("a", "0") if "a" in enc(w) else "0" + enc(w)[1:]); add("PVT_" + enc(w))
                for nb in (v, v + b"\7", v[:-1], v[:1], b"", bytes([2 if fam == "pvt" else 3]) + body, bytes([k | 128, 0]) + body):
                    if r.random() < .5: cases.append(("key_decode", [f, nb]))
    for fam in LEN:
        for s in ("", "PUB_", "PUB_K1_", "PUB_XX_111", "EOS", "SIG_K1", "PVT_WA_111", "SIG_", "1", "11111", "\0"): cases.append(("key_parse", [fam.encode(), s.encode()]))
    c.conform(["crypto.cpp"], "T_Crypto", "CryptoJudge", cases)
    return c.finish("Base58 over TLC-enumerated strings and random ones with leading zeros; for every kind of key and signature random and extreme values, printed and parsed back, and altered, truncated, extended, swapped, wrong-kind and wrong-length texts (with and without a recomputed checksum), through the C++ and the C API")
