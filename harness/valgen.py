"""random JSON documents and binaries for the types of an ABI definition (inputs only: the specification decides what is right)"""
import json, struct
from abigen import *
from c12 import text as keytext, value as keyvalue
class Deep(Exception): pass
class Obj(list): pass          # [[key, value], ...]
class Raw(str): pass           # a scalar, as JSON text
WIDTH = {"bool": 1, "float32": 4, "float64": 8, "float128": 16, "time_point": 8, "time_point_sec": 4, "block_timestamp_type": 4, "name": 8, "checksum160": 20, "checksum256": 32, "checksum512": 64, "symbol": 8, "symbol_code": 8, "asset": 16,
         "int8": 1, "uint8": 1, "int16": 2, "uint16": 2, "int32": 4, "uint32": 4, "int64": 8, "uint64": 8, "int128": 16, "uint128": 16}
INTS = {"int8": (1, 1), "uint8": (1, 0), "int16": (2, 1), "uint16": (2, 0), "int32": (4, 1), "uint32": (4, 0), "int64": (8, 1), "uint64": (8, 0), "int128": (16, 1), "uint128": (16, 0), "varuint32": (4, 0), "varint32": (4, 1)}
FAM = {"public_key": "pub", "private_key": "pvt", "signature": "sig"}
class Types:
    def __init__(self, d):
        self.alias = dict(d["types"]); self.st = {n: (b, f) for n, b, f in d["structs"]}; self.va = dict(d["variants"])
        self.st["extended_asset"] = ("", [("quantity", "asset"), ("contract", "name")])
    def get(self, n, k=0):
        if k > 40: raise Deep
        if n in self.alias: return self.get(self.alias[n], k + 1)
        if n in self.st:
            b, f = self.st[n]; base = self.get(b, k + 1)[1] if b else []
            return ("struct", base + f)
        if n in self.va: return ("variant", self.va[n])
        if n in BUILTIN: return ("builtin", n)
        for s, x in (("?", "opt"), ("[]", "arr"), ("$", "ext")):
            if n.endswith(s): self.get(n[:-len(s)], k + 1); return (x, n[:-len(s)])
        raise Deep
def hexs(r, n): return "".join(r.choice("0123456789abcdefABCDEF") for _ in range(2 * n))
def jstr(r, s):
    if r.random() < .3: return json.dumps(s, ensure_ascii=r.random() < .5)
    out = ""
    for ch in s:
        if ch in '"\\' or ord(ch) < 32: out += json.dumps(ch)[1:-1]
        elif r.random() < .03 and ord(ch) < 0xd800: out += "\\u%04x" % ord(ch)
        else: out += ch
    return '"' + out + '"'
STR = ["", "a", "hello world", "\"quoted\\\"", "é", "日本", "\U0001f600", "\x7f", "\x01\x1f", "null", "1", "-1", "true", "Infinity", "x" * 200, "/", "\u0000"]
def symcode(r): return "".join(r.choice("ABCZ") for _ in range(r.randrange(1, 8)))
def date(r): return "%04d-%02d-%02dT%02d:%02d:%02d" % (r.choice([1970, 1999, 2000, 2020, 2037, 2039, 2105]), r.randrange(1, 13), r.randrange(1, 29), r.randrange(24), r.randrange(60), r.randrange(60))
def scalar(r, n):
    """JSON text of a (mostly fitting) value"""
    m = r.random()
    q = lambda s: jstr(r, s)
    if n in INTS:
        w, s = INTS[n]; lo, hi = (-(1 << 8 * w - 1), (1 << 8 * w - 1) - 1) if s else (0, (1 << 8 * w) - 1)
        x = r.choice([lo, hi, 0, 1, 127, 128, r.randrange(lo, hi + 1)])
        if m < .04: x = r.choice([lo - 1, hi + 1, hi * 2 + 2, lo * 2 - 1])
        return str(x) if r.random() < .5 else '"%d"' % x
    if n == "bool": return r.choice(["true", "false"]) if m > .04 else r.choice(["0", "1", '"true"', "null"])
    if n in ("float32", "float64"): return r.choice(["0", "-0.0", "1.5", "-3.25e10", "\"1e-3\"", "1e30", "123456789", "0.1", "\"Infinity\"", "\"NaN\"", "1e-300", "5e-324", "1e37"])
    if n in ("float128", "checksum160", "checksum256", "checksum512"):
        return '"' + hexs(r, WIDTH[n] if m > .06 else WIDTH[n] + r.choice([-1, 1])) + ("0" if m < .01 else "") + '"'
    if n == "bytes": return '"' + hexs(r, r.choice([0, 0, 1, 3, 16, 127, 128])) + ("" if m > .04 else r.choice(["0", "gg", " "])) + '"'
    if n == "string": return q(r.choice(STR)) if m > .05 else r.choice(["12", "-3.5e7", "true"])
    if n == "time_point": return q(date(r) + r.choice(["", ".000", ".123", ".5", ".123456", ".999"])) if m > .03 else q("2020-13")
    if n == "time_point_sec": return q(date(r) + r.choice(["", "", ".000", ".7"])) if m > .03 else q("later")
    if n == "block_timestamp_type": return q(date(r).replace("19", "20", 1) .replace("1970", "2007").replace("2105", "2050") + r.choice([".000", ".500", "", ".250"])) if m > .03 else q("x")
    if n == "name": return q("".join(r.choice("abcxyz.12345") for _ in range(r.randrange(0, 14)))) if m > .05 else q(r.choice(["UPPER", "toolongnameforthis", "zzzzzzzzzzzzz"]))
    if n in FAM:
        if n == "private_key": k = r.randrange(2)
        else: k = r.randrange(3)
        return q(keytext(FAM[n], k, keyvalue(r, FAM[n], k)[1:])) if m > .04 else q("EOS1" if m < .02 else "PUB_K1_11111")
    if n == "symbol": return q("%d,%s" % (r.randrange(19), symcode(r))) if m > .04 else q(r.choice(["4,", "EOS", "x,EOS", "4,eos"]))
    if n == "symbol_code": return q(symcode(r)) if m > .04 else q(r.choice(["eos", "", "ABCDEFGH"]))
    if n == "asset":
        if m < .04: return q(r.choice(["1", "1 eos", "x EOS", "1.5.5 EOS"]))
        p = r.randrange(6); x = r.choice([0, 1, 10 ** 6, (1 << 62) - 1, r.randrange(1 << 40)]); s = str(x).rjust(p + 1, "0")
        return q(("-" if r.random() < .3 else "") + s[:len(s) - p] + ("." + s[len(s) - p:] if p else "") + " " + symcode(r))
    raise Deep
def doc(r, ty, n, depth=0, tail=True):
    """a fitting document; extensions at the end are sometimes left out"""
    if depth > 9: raise Deep
    k, x = ty.get(n)
    if k == "builtin": return Raw(scalar(r, x))
    if k == "opt": return Raw("null") if r.random() < .3 + depth * .1 else doc(r, ty, x, depth + 1, tail)
    if k == "ext": return doc(r, ty, x, depth + 1, tail)
    if k == "arr": return [doc(r, ty, x, depth + 1, False) for _ in range(r.choice([0, 1, 2, 3]) if depth < 4 else r.choice([0, 0, 1]))]
    if k == "variant":
        if not x: raise Deep
        a = r.choice(x); return [Raw(jstr(r, a)), doc(r, ty, a, depth + 1, tail)]
    o = Obj(); cut = len(x)
    e = len(x)
    while e > 0 and ty.get(x[e - 1][1])[0] == "ext": e -= 1
    if e < len(x) and r.random() < (.5 if tail else .1): cut = r.randrange(e, len(x))
    for i, (f, t) in enumerate(x[:cut]): o.append([f, doc(r, ty, t, depth + 1, tail and i == len(x) - 1)])
    return o
def ws(r): return r.choice(["", "", "", " ", "\n", "\t", "  \r\n"])
def render(r, v, sp=True):
    w = (lambda: ws(r)) if sp and r.random() < .3 else (lambda: "")
    def go(v):
        if isinstance(v, Raw): return str(v)
        if isinstance(v, Obj): return "{" + w() + (w() + "," + w()).join(jstr(r, k) + w() + ":" + w() + go(x) for k, x in v) + w() + "}"
        return "[" + w() + (w() + "," + w()).join(go(x) for x in v) + w() + "]"
    return (w() + go(v) + w()).encode("utf8", "surrogatepass")
def nodes(v, acc=None):
    acc = [] if acc is None else acc
    if isinstance(v, Obj):
        acc.append(v)
        for k, x in v: nodes(x, acc)
    elif isinstance(v, list):
        acc.append(v)
        for x in v: nodes(x, acc)
    return acc
import copy
SPARE = [Raw("null"), Raw("1"), Raw("true"), Raw('"x"'), Raw('""'), [], Obj(), [Raw("1")], Obj([["a", Raw("1")]]), Raw("1.5"), Raw('"1"')]
def mutate(r, v, kinds=None):
    v = copy.deepcopy(v); ns = nodes(v)
    m = r.choice(kinds or ["drop", "swap", "add", "rename", "dup", "replace", "shuffle", "case", "replace"])
    if not ns: return copy.deepcopy(r.choice(SPARE))
    objs = [o for o in ns if isinstance(o, Obj) and o]; n = r.choice(objs if objs and m in ("drop", "swap", "add", "rename", "dup", "shuffle", "case") and r.random() < .9 else ns)
    if m == "drop" and n: n.pop(r.randrange(len(n)) if r.random() < .6 else -1)
    elif m == "swap" and len(n) > 1: i = r.randrange(len(n) - 1); n[i], n[i + 1] = n[i + 1], n[i]
    elif m == "shuffle": r.shuffle(n)
    elif m in ("add", "dup") or not n:
        x = copy.deepcopy(r.choice(n)) if n and m == "dup" else copy.deepcopy(r.choice(SPARE))
        if isinstance(n, Obj) and not (n and m == "dup"): x = [r.choice(["zz", "", "a", "f0"]), x]
        elif isinstance(n, Obj) and r.random() < .7: x[1] = copy.deepcopy(r.choice(SPARE))
        n.insert(r.randrange(len(n) + 1), x)
    elif isinstance(n, Obj):
        i = r.randrange(len(n))
        if m == "rename": n[i][0] = r.choice([n[i][0] + "x", n[i][0][:-1], "", r.choice(n)[0]])
        elif m == "case": n[i][0] = n[i][0].upper()
        else: n[i][1] = copy.deepcopy(r.choice(SPARE))
    elif n: n[r.randrange(len(n))] = copy.deepcopy(r.choice(SPARE))
    return v
def permute(r, v):
    """every object's members in random order, sometimes with unknown or repeated ones"""
    v = copy.deepcopy(v)
    for n in nodes(v):
        if not isinstance(n, Obj): continue
        if r.random() < .3: n.insert(0, [r.choice(["unknown", "zz", ""]), copy.deepcopy(r.choice(SPARE))])
        if n and r.random() < .2: n.insert(0, [r.choice(n)[0], copy.deepcopy(r.choice(SPARE))])
        if r.random() < .85:
            known = {}
            for i, (k, _) in enumerate(n): known.setdefault(k, []).append(i)
            # the last occurrence must stay the last one
            order = [k for k, _ in n]; r.shuffle(order); take = {k: list(ix) for k, ix in known.items()}
            n[:] = [n[take[k].pop(0)] for k in order]
    return v
def spoil(r, t):
    """damage the text of a document"""
    t = bytearray(t)
    if not t: return b" "
    m = r.randrange(7); i = r.randrange(len(t))
    if m == 0: del t[i]
    elif m == 1: t[i:i] = r.choice([b",", b"]", b"}", b"[", b"{", b'"', b"\\", b":", b"1", b" ", b"\xff", b"\x01"])
    elif m == 2: del t[i:]
    elif m == 3: t += r.choice([b"1", b"}", b"]", b",", b"{}", b" x", b"null", b"\0", b"\0x"])
    elif m == 4: t[i] ^= 1 << r.randrange(8)
    elif m == 5: t[i:i + 1] = t[i:i + 1] * 2
    else: t = bytearray(r.choice([b"", b" ", b"\xef\xbb\xbf", b"// \n"])) + t
    return bytes(t)
def vuint(r, n, canon=True):
    b = vu(n)
    if not canon and r.random() < .04 and len(b) < 5: b = b[:-1] + bytes([b[-1] | 128]) + b"\x80" * r.randrange(0, 5 - len(b)) + b"\0"
    return b
def binary(r, ty, n, depth=0, tail=True, odd=False):
    if depth > 9: raise Deep
    k, x = ty.get(n)
    if k == "builtin":
        if x == "bool": return bytes([r.choice([0, 1]) if not odd or r.random() < .9 else r.randrange(256)])
        if x in ("varuint32", "varint32"): return vuint(r, r.choice([0, 1, 127, 128, 16383, 16384, (1 << 32) - 1, r.getrandbits(32)]), not odd)
        if x == "bytes": k = r.choice([0, 1, 5, 127, 128]); return vuint(r, k, not odd) + r.randbytes(k)
        if x == "string":
            s = r.choice(STR).encode("utf8", "surrogatepass")
            if odd and r.random() < .2: s += r.choice([b"\xff", b"\xc3", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xc0\x80", b"\0"])
            return vuint(r, len(s), not odd) + s
        if x in FAM: k = r.randrange(2 if x == "private_key" else 3); return keyvalue(r, FAM[x], k)
        if x == "asset": return struct.pack("<q", r.choice([0, 1, -1, (1 << 62) - 1, r.randrange(1 << 40)])) + bytes([r.randrange(19)]) + symcode(r).encode().ljust(7, b"\0")
        if x == "symbol": return bytes([r.randrange(19)]) + symcode(r).encode().ljust(7, b"\0")
        if x == "symbol_code": return symcode(r).encode().ljust(8, b"\0")
        if x == "time_point": return struct.pack("<q", r.randrange(0, 4 * 10 ** 15) // 1000 * r.choice([1, 1000]))
        w = WIDTH[x]
        return r.choice([bytes(w), b"\xff" * w, r.randbytes(w), r.randbytes(w), bytes([1]) + bytes(w - 1)])
    if k == "opt": return b"\0" if r.random() < .3 + depth * .1 else (b"\1" if not odd or r.random() < .9 else bytes([r.randrange(1, 256)])) + binary(r, ty, x, depth + 1, tail, odd)
    if k == "ext": return binary(r, ty, x, depth + 1, tail, odd)
    if k == "arr":
        c = r.choice([0, 1, 2, 3]) if depth < 4 else r.choice([0, 0, 1])
        if depth == 0 and r.random() < .03: c = r.choice([127, 128, 130])
        try: return vuint(r, c, not odd) + b"".join(binary(r, ty, x, depth + 1 if c < 5 else 8, False, odd) for _ in range(c))
        except Deep:
            if c < 5: raise
            return b"\0"
    if k == "variant":
        if not x: raise Deep
        i = r.randrange(len(x)); return vuint(r, i, not odd) + binary(r, ty, x[i], depth + 1, tail, odd)
    e = len(x)
    while e > 0 and ty.get(x[e - 1][1])[0] == "ext": e -= 1
    cut = r.randrange(e, len(x)) if e < len(x) and r.random() < (.5 if tail else .1) else len(x)
    return b"".join(binary(r, ty, t, depth + 1, tail and i == len(x) - 1, odd) for i, (f, t) in enumerate(x[:cut]))
def hurt(r, b):
    b = bytearray(b); m = r.randrange(6)
    if m == 0 and b: del b[-r.randrange(1, min(len(b), 4) + 1):]
    elif m == 1: b += r.choice([b"\0", b"\1", b"\xff", r.randbytes(3)])
    elif m == 2 and b: b[r.randrange(len(b))] ^= 1 << r.randrange(8)
    elif m == 3 and b: i = r.randrange(len(b)); b[i:i] = r.choice([b"\x80", b"\xff\xff\xff\xff\x0f", b"\x80\x80\x80\x80\x80\x01", b"\xff\xff\xff\xff\xff"])
    elif m == 4 and b: del b[r.randrange(len(b))]
    elif b: b[r.randrange(len(b))] = r.choice([0, 1, 2, 127, 128, 255])
    return bytes(b)
def roots(r, d, n=3):
    ns = names_of(d)
    out = [x + r.choice(["", "", "", "[]", "?", "$"]) for x in ns]
    out += [r.choice(BUILTIN + ["extended_asset"]) + r.choice(["", "[]", "?", "$", "?$", "[]$"]) for _ in range(n)]
    return out
def model_text(r, toks):
    """token events of the model -> text"""
    out, prev = "", None
    for t in toks:
        k = t["t"]; s = bytes(t["v"]).decode()
        x = {"num": s, "str": jstr(r, s), "key": jstr(r, s) + ":"}.get(k, k)
        if prev and k not in ("}", "]") and prev not in ("{", "[", "key"): out += "," + ws(r)
        out += x; prev = k
    return out.encode()

def weightless(ty, n, depth=0):
    """may a value of the type take no bytes?"""
    if depth > 12: return False
    try: k, x = ty.get(n)
    except Deep: return False
    if k == "struct": return all(weightless(ty, t, depth + 1) for _, t in x)
    return k == "ext" and weightless(ty, x, depth + 1)
def endless(ty, n, seen=None):
    """does the type contain an array whose elements may take no bytes? (its count is not bounded by the input: see C07)"""
    seen = set() if seen is None else seen
    if n in seen: return False
    seen.add(n)
    try: k, x = ty.get(n)
    except Deep: return False
    if k == "arr" and weightless(ty, x): return True
    if k in ("opt", "ext", "arr"): return endless(ty, x, seen)
    if k == "struct": return any(endless(ty, t, seen) for _, t in x)
    if k == "variant": return any(endless(ty, t, seen) for t in x)
    return False
