"""random ABI definitions, their JSON text and binary"""
import json, struct
from sym import *
BUILTIN = ["bool", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "int128", "uint128", "varuint32", "varint32", "float32", "float64", "float128", "time_point", "time_point_sec", "block_timestamp_type", "name",
           "bytes", "string", "checksum160", "checksum256", "checksum512", "public_key", "private_key", "signature", "symbol", "symbol_code", "asset", "extended_asset"]
def new(version="eosio::abi/1.1"): return {"version": version, "types": [], "structs": [], "actions": [], "tables": [], "variants": []}
# the parts of a definition which mean nothing here
def more(d): return d.get("more") or {"rc": "", "index": "i64", "keys": [], "keytypes": [], "clauses": [], "errors": [], "exts": []}
def rnd_more(r):
    t = lambda: r.choice(["", "a", "the signer agrees", "{{$action.x}}", "x" * r.choice([127, 128, 300]), "\n\"\\", "\u00e9\u20ac"])
    l = lambda f: [f() for _ in range(r.choice([0, 0, 1, 2, 3]))]
    return {"rc": t(), "index": r.choice(["i64", "", "sha256"]), "keys": l(t), "keytypes": l(t), "clauses": l(lambda: (t(), t())),
            "errors": l(lambda: (r.choice([0, 1, 2**32, 2**63, 2**64 - 1]), t())), "exts": l(lambda: (r.randrange(65536), r.randbytes(r.choice([0, 1, 130])))) if r.random() < .15 else []}
def jdict(d):
    o = {"version": d["version"], "types": [{"new_type_name": n, "type": t} for n, t in d["types"]],
         "structs": [{"name": n, "base": b, "fields": [{"name": x, "type": t} for x, t in f]} for n, b, f in d["structs"]],
         "actions": [{"name": n, "type": t, "ricardian_contract": more(d)["rc"]} for n, t in d["actions"]],
         "tables": [{"name": n, "type": t, "index_type": more(d)["index"], "key_names": more(d)["keys"], "key_types": more(d)["keytypes"]} for n, t in d["tables"]],
         "ricardian_clauses": [{"id": a, "body": b} for a, b in more(d)["clauses"]], "error_messages": [{"error_code": a, "error_msg": b} for a, b in more(d)["errors"]],
         "abi_extensions": [[a, b.hex()] for a, b in more(d)["exts"]], "variants": [{"name": n, "types": ts} for n, ts in d["variants"]]}
    return o
def jtext(d): return json.dumps(jdict(d)).encode()
def vu(n):
    r = b""
    while True:
        if n < 128: return r + bytes([n])
        r += bytes([n & 127 | 128]); n >>= 7
def sv(s):
    b = s.encode() if isinstance(s, str) else s
    return vu(len(b)) + b
def nameval(s):
    v = 0
    for i in range(13):
        c = s[i] if i < len(s) else "."
        k = 0 if c == "." else ord(c) - 48 if c in "12345" else ord(c) - 91 if "a" <= c <= "z" else 0
        v |= (k & 15) if i == 12 else k << (64 - 5 * (i + 1))
    return v
def nb(s): return nameval(s).to_bytes(8, "little")
def many(xs): return vu(len(xs)) + b"".join(xs)
def bintext(d, parts="all"):
    r = sv(d["version"]) + many([sv(n) + sv(t) for n, t in d["types"]]) + many([sv(n) + sv(b) + many([sv(x) + sv(t) for x, t in f]) for n, b, f in d["structs"]])
    m = more(d)
    r += many([nb(n) + sv(t) + sv(m["rc"]) for n, t in d["actions"]]) + many([nb(n) + sv(m["index"]) + many([sv(x) for x in m["keys"]]) + many([sv(x) for x in m["keytypes"]]) + sv(t) for n, t in d["tables"]])
    r += many([sv(a) + sv(b) for a, b in m["clauses"]]) + many([a.to_bytes(8, "little") + sv(b) for a, b in m["errors"]]) + many([a.to_bytes(2, "little") + sv(b) for a, b in m["exts"]])
    if d["variants"] or parts == "all": r += many([sv(n) + many([sv(t) for t in ts]) for n, ts in d["variants"]])
    return r
SUF = ["", "", "", "", "?", "[]", "$", "?$", "[]$"]
def names_of(d): return [x[0] for x in d["types"] + d["structs"] + d["variants"]]
def gen(r, n=None, wild=0.05):
    """mostly well-formed definitions"""
    d = new("eosio::abi/1." + r.choice(["0", "1", "2", "1"]))
    n = n or r.randrange(1, 9)
    pool = ["T%d" % i if r.random() < .8 else r.choice(["zeta", "alpha", "Foo", "x.y", "_u", "A", "S::t"]) + str(i) for i in range(n)]
    if r.random() < .1: pool.append(r.choice(["int8?", "T0[]", "T0$", "string[]", "T0?"]))
    r.shuffle(pool)
    kinds = {p: r.choice(["alias", "struct", "struct", "struct", "variant"]) for p in pool}
    def texpr(avail, ext=True):
        base = r.choice(avail) if avail and r.random() < .5 else r.choice(BUILTIN)
        s = r.choice(SUF if ext else SUF[:6])
        if r.random() < wild: s += r.choice(["?", "[]", "$", "[]?", "??"])
        if r.random() < wild: base = r.choice(["nope", "", "Int8", "int8 "])
        return base + s
    structs = [p for p in pool if kinds[p] == "struct"]
    for p in pool:
        # any name may refer to any other one; bases and aliases mostly to later ones so that chains end
        i = pool.index(p)
        if kinds[p] == "alias": d["types"].append((p, texpr(pool[i + 1:] or (pool if r.random() < wild else []), ext=r.random() < wild)))
        elif kinds[p] == "struct":
            later = [x for x in structs if structs.index(x) > structs.index(p)]
            base = r.choice(later) if later and r.random() < .5 else ""
            if r.random() < wild: base = r.choice(pool + ["int8", "extended_asset", "nope", "S[]"])
            d["structs"].append((p, base, [("f%d" % j if r.random() < .95 else r.choice(["", "f0", "a b", "é", "\"q", "\\"]), texpr(pool)) for j in range(r.choice([0, 1, 2, 2, 3, 5]))]))
        else: d["variants"].append((p, [texpr(pool) for _ in range(r.choice([0, 1, 2, 3, 4]))]))
    if r.random() < wild and pool:
        p = r.choice(pool + ["int8", "extended_asset", ""])
        r.choice([lambda: d["types"].append((p, "int8")), lambda: d["structs"].append((p, "", [])), lambda: d["variants"].append((p, ["int8"]))])()
    for k in ("types", "structs", "variants"):
        if r.random() < .3: r.shuffle(d[k])
    for k in ("actions", "tables"):
        for _ in range(r.choice([0, 0, 1, 2])): d[k].append((r.choice(["act", "transfer", "a", "zzzzzzzzzzzzj", "act"]), r.choice(pool + ["int8", "nope", ""])))
    if r.random() < .3: d["more"] = rnd_more(r)
    return d
def queries(r, d, n=6):
    ns = names_of(d) + BUILTIN + ["nope", ""]
    q = []
    for x in names_of(d): q.append("t" + x)
    for _ in range(n): q.append("t" + r.choice(ns) + r.choice(["", "?", "[]", "$", "?$", "[]$", "$?", "[][]", "??", "?[]", "$$", "[]?"]))
    q = [x.encode() for x in q]
    for k, l in (("actions", b"A"), ("tables", b"T")):
        for x, _ in d[k]: q.append(l + nb(x))
        q.append(l + nb("other"))
    if r.random() < .4: q += r.sample(q, min(3, len(q)))
    return q
def chain(r, n, kind, order):
    """alias or base chain of n links, named so that byte order visits it from the top, the bottom or mixed"""
    ids = list(range(n))
    if order == "up": ids.reverse()
    elif order == "mix": r.shuffle(ids)
    nm = ["N%0*d" % (max(3, len(str(n))), i) for i in ids]
    d = new()
    for i in range(n):
        if kind == "alias": d["types"].append((nm[i], nm[i + 1] if i + 1 < n else "int8"))
        elif kind == "base": d["structs"].append((nm[i], nm[i + 1] if i + 1 < n else "", [("f%d" % i, "int8")]))
        elif kind == "aliasopt": d["types"].append((nm[i], nm[i + 1] if i + 1 < n else "int8?"))
        elif kind == "basealias":
            if i % 2: d["types"].append((nm[i], nm[i + 1] if i + 1 < n else "int8"))
            else: d["structs"].append((nm[i], nm[i + 1] if i + 1 < n else "", [("f%d" % i, "int8")]))
        elif kind == "ring": d["types"].append((nm[i], nm[(i + 1) % n]))
        elif kind == "basering": d["structs"].append((nm[i], nm[(i + 1) % n], []))
    return d
