"""the zoo of C++ types: type expressions, their meaning for the specification, values, and the generated driver units"""
import json, os, re, struct
from core import VERIF, BUILD
from abigen import vu
from valgen import WIDTH, FAM, STR, symcode, keyvalue
from abigen import BUILTIN as ALLB
BUILTIN = [b for b in ALLB if b != "extended_asset"]
# ------------------------------------------------------------------ structs (members in wire order)
STRUCTS = {}
def define(text, ns):
    for ln in text.strip().split("\n"):
        if ln.startswith("#"): continue
        head, _, body = ln.partition(" = ")
        name, base = re.match(r"(\w+(?:::\w+)?)(?::(\w+))?$", head.strip()).groups("")
        t = body.split()
        STRUCTS[name] = (ns + name, base, list(zip(t[::2], t[1::2])))
define("""
empty = 
point = x int8 y int8
base = id uint64 who name
derived:base = note string num opt<uint16>
twice:derived = v vec<int32> p point
mixed = first uint8 mid var<uint8,string,float64> last string
keyed = s string n int8 v vec<uint8> o opt<string>
scalars = b bool i8 int8 u8 uint8 i16 int16 u16 uint16 i32 int32 u32 uint32 i64 int64 u64 uint64 i128 int128 u128 uint128 vu varuint32 vi varint32 f float32 d float64 ld float128 tp time_point ts time_point_sec bt block_timestamp_type nm name by bytes st string c1 checksum160 c2 checksum256 c5 checksum512 pk public_key sk private_key sg signature sy symbol sc symbol_code as asset
holder = names vec<string> nums vec<float64> price opt<asset> v var<int8,string,name> at point d derived raw opt<bytes> keys vec<public_key>
extended = a int8 b mne<string> c mne<vec<uint16>>
node = v int16 s string
tree = v int8 kids vec<tree> tip opt<node>
graph = nodes vec<node> root opt<node> pick var<node,string> steps vec<var<int8,node>>
rich = nm name am asset sy symbol sc symbol_code tp time_point ts time_point_sec bt block_timestamp_type vu varuint32 vi varint32 i128 int128 u128 uint128 f float32 d float64 b bool strs vec<string> nums vec<uint64> o opt<float64> v var<int8,string,vec<int8>> kid node kids vec<node> at derived t tree ea extended_asset last mne<vec<node>>
quoting = plain string many vec<string> opt opt<string> var var<string,bool>
arrays = bytes carr3<int8> texts carr2<string> nums carr3<uint32> tall carr2<float64> pts carr2<point> ext arr2<uint16>
ofirst = a opt<int8> b opt<string> c uint8
oonly = o opt<uint16>
vfirst:ofirst = v vec<ofirst> w var<oonly,string>
wfirst = w var<int8,string> k uint8
onlyvec = v vec<oonly>
tailed = k bool a mne<string>
tails:sub = b mne<uint8> c mne<vec<int8>>
sub = o opt<bool>
lazy = k uint8 strs opq<vec<string>> one opq<derived> z uint16
""", "zoo::")
define(open(VERIF + "/harness/ship.txt").read(), "eosio::ship_protocol::")
define("""
cv_a1 = x uint32 y string
cv_a2 = y string x uint32
cv_a3 = x uint32
cv_a4:cv_a1 = z int8 w vec<uint16>
cv_in = n varuint32 d stream
cv_ot = d vec<chr> n uint32
cv_n1 = a cv_a1 v vec<cv_a1> o opt<cv_a1> t vec<varuint32> u opt<varuint32> in cv_in
cv_n2 = t vec<uint32> o opt<cv_a4> v vec<cv_a4> a cv_a4 u opt<uint32> in cv_ot extra string
cv_n3 = o opt<cv_a3> v vec<cv_a3> a cv_a2
cv_p1 = p var<cv_a1,cv_a4> k uint8
cv_p2 = k uint8 p cv_a3
cv_lw = n varuint32 d stream o opt<cv_a1> t vec<varuint32>
cv_l = d vec<chr> n uint32 t vec<uint32> o opt<cv_a4>
cv_ll = one cv_l many vec<cv_l> may opt<cv_l> k uint8
cv_llw = one cv_lw many vec<cv_lw> may opt<cv_lw> k uint8
""", "cv::")
AS = {"cv_l": "cv_lw"} # read as
define("extended_asset = quantity asset contract name", "eosio::")
define("block_info = block_num uint32 block_id checksum256 timestamp block_timestamp_type", "chain_types::")
SHIP = [k for k, v in STRUCTS.items() if v[0].startswith("eosio::ship")]
ENUMS = {"e_s8": "int8", "e_u8": "uint8", "e_s16": "int16", "e_u64": "uint64"}
STATUS = ["executed", "soft_fail", "hard_fail", "delayed", "expired"]
CPP = {"float32": "float", "float64": "double", "float128": "eosio::float128", "string": "std::string", "stream": "eosio::input_stream", "block_timestamp_type": "eosio::block_timestamp", "int128": "zoo::int128", "chr": "char", "uint128": "zoo::uint128", "bool": "bool"}
for b in BUILTIN:
    if b not in CPP: CPP[b] = b + "_t" if re.match(r"u?int\d+$", b) else "eosio::" + b
# ------------------------------------------------------------------ type expressions
CACHE = {}
def parse(s):
    """text -> (constructor, number, arguments)"""
    if s in CACHE: return CACHE[s]
    m = re.match(r"([a-z]+?)(\d*)<(.*)>$", s)
    if not m: CACHE[s] = (s, 0, []); return CACHE[s]
    args, d, cur = [], 0, ""
    for ch in m.group(3):
        if ch == "," and d == 0: args.append(cur); cur = ""; continue
        d += {"<": 1, ">": -1}.get(ch, 0); cur += ch
    if cur: args.append(cur)
    CACHE[s] = (m.group(1), int(m.group(2) or 0), args)
    return CACHE[s]
def fields(n):
    _, base, f = STRUCTS[n]
    return (fields(base) if base else []) + f
def many(t, n): return "var<" + ",".join([t] * n) + ">"
def cpp(s):
    k, n, a = parse(s); x = [cpp(y) for y in a]
    if k in CPP: return CPP[k]
    if k in STRUCTS: return STRUCTS[k][0]
    if k in ENUMS: return "zoo::" + k
    if k == "status": return "eosio::ship_protocol::transaction_status"
    if k == "recurse": return "eosio::ship_protocol::recurse_transaction_trace"
    if k == "arr": return "std::array<%s, %d>" % (x[0], n)
    f = {"vec": "std::vector", "opt": "std::optional", "list": "std::list", "deque": "std::deque", "set": "std::set", "map": "std::map", "pair": "std::pair", "tup": "std::tuple", "var": "std::variant", "opq": "eosio::opaque", "mne": "eosio::might_not_exist"}[k]
    return f + "<" + ", ".join(x) + ">"
def abiname(s):
    k, n, a = parse(s)
    if k == "vec": return abiname(a[0]) + "[]"
    if k == "opt": return abiname(a[0]) + "?"
    if k == "mne": return abiname(a[0]) + "$"
    if k == "var": return "variant" + "".join("_" + abiname(x) for x in a)
    if k in ("stream", "opq"): return "bytes"
    return k
def inner(s):
    k, n, a = parse(s)
    if k in STRUCTS: return [t for _, t in fields(k)] + ([AS[k]] if k in AS else [])
    if k == "recurse": return ["var<transaction_trace_v0>"]
    if k == "map": return ["pair<%s,%s>" % tuple(a)]
    return a
def reach(roots):
    seen, todo = [], list(roots)
    while todo:
        x = todo.pop()
        if x in seen: continue
        seen.append(x); todo += inner(x)
    return seen
bs = lambda x: list(x.encode())
def entry(s):
    k, n, a = parse(s)
    e = {"nm": bs(abiname(s))}
    if k in ENUMS: e.update(k="builtin", n=ENUMS[k])
    elif k == "status": e.update(k="named", n="uint8", f=[bs(x) for x in STATUS])
    elif k == "chr": e.update(k="builtin", n="int8")
    elif k == "stream": e.update(k="builtin", n="bytes")
    elif k in CPP: e.update(k="builtin", n=k)
    elif k in STRUCTS: e.update(k="struct", f=[{"n": bs(x), "t": bs(t)} for x, t in fields(k)], **({"as": bs(AS[k])} if k in AS else {}))
    elif k == "recurse": e.update(k="alias", of=bs("var<transaction_trace_v0>"))
    elif k == "var": e.update(k="variant", f=[{"n": bs(abiname(x)), "t": bs(x)} for x in a])
    elif k in ("pair", "tup"): e.update(k="pair", f=[{"n": [], "t": bs(x)} for x in a])
    elif k in ("arr", "carr"): e.update(k={"arr": "stdarray", "carr": "carray"}[k], n=n, of=bs(a[0]))
    else: e.update(k={"vec": "array", "list": "list", "deque": "list", "set": "set", "map": "map", "opt": "optional", "opq": "opaque", "mne": "tail"}[k], of=bs(inner(s)[0]))
    return {"x": bs(s), "e": e}
# ------------------------------------------------------------------ what a type can do
def every(p, s, seen=()):
    if s in seen: return True
    return p(s) and all(every(p, x, seen + (s,)) for x in inner(s))
kind = lambda s: parse(s)[0]
def can_key(s): return every(lambda x: kind(x) not in ("varint32", "stream", "opq", "mne", "carr", "status", "recurse"), s)
NOCMP = ("extended_asset", "ofirst", "oonly", "vfirst", "onlyvec", "tailed", "tails", "sub", "scalars", "holder", "graph", "quoting", "extended", "arrays", "lazy", "rich")
def can_cmp(s): return every(lambda x: kind(x) not in ("stream", "opq", "mne", "carr", "recurse") and kind(x) not in NOCMP and (kind(x) not in SHIP or kind(x) in ("account_delta", "account_auth_sequence")), s)
def can_json(s): return every(lambda x: kind(x) not in ("opq", "mne", "carr", "list", "deque", "set", "map", "pair", "tup", "arr") and kind(x) not in ENUMS, s)
def can_parse(s): return can_json(s) and every(lambda x: kind(x) not in ("stream", "status", "recurse"), s)
REFLECTED = [k for k in STRUCTS if k not in ("node", "tree")] + ["stream", "mne"] + ["name", "asset", "bytes", "checksum160", "checksum256", "checksum512", "symbol", "symbol_code", "time_point", "time_point_sec", "block_timestamp_type", "varuint32", "varint32", "float128"]
NONAME = ["checksum160", "checksum256", "checksum512", "float128", "bytes", "stream", "opq"]
def can_abi(s):
    """the type's name in ABIs is a constant the compiler finds"""
    def ok(x):
        k, n, a = parse(x)
        if k in ("list", "deque", "set", "map", "pair", "tup", "arr", "carr", "status", "recurse") or k in ENUMS or k in SHIP or k in FAM or k in NONAME: return False # (keys and checksums hold arrays, bytes hold chars: these have no names)
        if k in ("vec", "opt", "var"):
            for y in a:
                ky = kind(y)
                if ky in REFLECTED or ky == "opq": return False
                if ky in ("vec", "opt", "var") and not (k == "var" and ky != "var") and "node" not in [kind(z) for z in reach([y])]: return False
        return True
    return every(ok, s)
def nests(s): # allowed by ABIs
    return every(lambda x: not (kind(x) in ("vec", "opt") and kind(inner(x)[0]) in ("vec", "opt", "mne")) and not (kind(x) == "mne" and kind(inner(x)[0]) == "mne"), s)
def weightless(s, seen=()):
    k, n, a = parse(s)
    if s in seen: return False
    if k in STRUCTS: return all(weightless(t, seen + (s,)) for _, t in fields(k))
    if k in ("tup", "pair"): return all(weightless(x) for x in a)
    if k == "arr": return n == 0 or weightless(a[0])
    return k == "mne"
# ------------------------------------------------------------------ generated units
OPQ = ["opq<vec<string>>", "opq<vec<uint16>>", "opq<vec<uint8>>", "opq<vec<vec<int8>>>", "opq<vec<opt<point>>>", "opq<derived>", "opq<string>", "opq<map<uint8,string>>", "opq<vec<var<int8,string>>>", "opq<vec<var<table_delta_v0>>>", "opq<vec<var<transaction_trace_v0>>>"]
OPS = {"z_opq": lambda s: kind(s) == "opq", "z_tobin": lambda s: True, "z_frombin": lambda s: True, "z_cut": lambda s: True, "z_reuse": lambda s: True, "z_json": can_json, "z_fromjson": can_parse, "z_jreuse": can_parse, "z_keys": can_key, "z_cmp": can_cmp, "z_eq": can_cmp,
       "z_abi": can_abi, "z_abijson": lambda s: can_abi(s) and nests(s), "z_via": lambda s: can_abi(s) and nests(s) and can_json(s) and can_parse(s)}
def members(n):
    full, base, f = STRUCTS[n]
    if full.startswith("zoo::") : return ""
    return "MEMBERS(%s, %s %s);\n" % (full, "BASE(%s)" % STRUCTS[base][0] if base else "", " ".join("M(%s)" % x for x, _ in f))
def units(types, ops, per=8):
    """C++ units that register the given operations of the types; the first one also serves them"""
    d = BUILD + "/gen"; os.makedirs(d, exist_ok=True)
    out = []
    rs = [t for t in types]
    n = min(per, max(1, len(rs)))
    cost = lambda t: len(reach([t])) + 3 * len(parse(t)[2])
    bins = [[0, []] for _ in range(n)]
    for t in sorted(rs, key=lambda t: -cost(t)): b = min(bins, key=lambda x: x[0]); b[0] += cost(t) + 4; b[1].append(t)
    for i, (_, ts) in enumerate(bins):
        if not ts: continue
        ship = [k for k in STRUCTS if not STRUCTS[k][0].startswith("zoo::")]
        used = {kind(x) for x in reach(ts)}; need = [k for k in ship if k in used]
        for k in list(need):
            b = STRUCTS[k][1]
            while b:
                if b not in need: need.append(b)
                b = STRUCTS[b][1]
        need.sort(key=ship.index)
        s = '#include "zoo.hpp"\n#include <eosio/chain_types.hpp>\nnamespace zoo {\n' + "".join(members(k) for k in need) + ("MEMBERS(eosio::ship_protocol::recurse_transaction_trace, M(recurse));\n" if "recurse" in used else "")
        if i == 0:
            s += "std::map<std::string, std::map<std::string, OpFn>>& table() { static std::map<std::string, std::map<std::string, OpFn>> t; return t; }\n"
            s += "".join('static void go_%s(const Args& a, Out& o) { auto& t = table()["%s"]; auto i = t.find(a[0]); if (i == t.end()) { fprintf(stderr, "no %%s of %%s\\n", "%s", a[0].c_str()); _exit(99); } i->second(a, o); }\nstatic Reg reg_%s("%s", go_%s);\n' % (o, o, o, o, o, o) for o in ops)
        for j, t in enumerate(ts):
            s += "using T%d = %s;\n" % (j, cpp(t)) + "".join('static Put p%d_%s("%s", "%s", %s<T%d>);\n' % (j, o, o, t, o, j) for o in ops if OPS[o](t))
        s += "}\n"
        p = d + "/zoo_%s_%d.cpp" % ("_".join(o[2:] for o in ops)[:60], i)
        if not os.path.exists(p) or open(p).read() != s: open(p, "w").write(s)
        out.append(p)
    return out
def setup(types):
    """the environment for the specification"""
    d = BUILD + "/gen"; os.makedirs(d, exist_ok=True)
    p = d + "/zoo_env_%d.json" % os.getpid()
    json.dump([entry(x) for x in reach(types)], open(p, "w"))
    os.environ["ZOO"] = p
    return p
# ------------------------------------------------------------------ values
def wire(r, s, depth=0, tail=True, odd=0.0, small=False):
    """a binary of the type (sets and maps unordered, with repetitions, when odd)"""
    k, n, a = parse(s)
    W = lambda x, t=False: wire(r, x, depth + 1, t, odd, small)
    count = lambda: r.choice([0, 1, 1, 2, 3]) if depth < 3 else r.choice([0, 0, 1])
    if k in ENUMS: k = ENUMS[k]
    if k == "status": return bytes([r.randrange(5) if r.random() > odd * .2 else r.randrange(256)])
    if k == "chr": return r.randbytes(1)
    if k == "bool": return bytes([r.choice([0, 1]) if r.random() > odd * .2 else r.randrange(256)])
    if k in ("varuint32", "varint32"): return vu(r.choice([0, 1, 2, 126, 127, 128, 16383, 16384, (1 << 21) - 1, 1 << 21, (1 << 28) - 1, 1 << 28, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, r.getrandbits(32)]))
    if k == "string":
        x = r.choice([b"", b"\0", b"a", b"a\0", b"\0\1", b"ab", b"\xff", b"a\xff", b"\1", b"b"] if small else [x.encode("utf8", "surrogatepass") for x in STR] + [b"\0", b"a\0b"])
        if not small and r.random() < odd * .3: x += r.choice([b"\xff", b"\xc3", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xc0\x80", b"\0"])
        return vu(len(x)) + x
    if k in ("bytes", "stream"):
        x = r.choice([b"", b"\0", b"\x80", b"\x80\0", b"\x7f", b"\0\0", b"\1", b"\xff"]) if small else r.randbytes(r.choice([0, 0, 1, 3, 20, 127, 128]))
        return vu(len(x)) + x
    if k in FAM:
        if small: x = bytearray(keyvalue(r, FAM[k], r.randrange(2 if k == "private_key" else 3))); x[1:33] = r.choice([bytes(32), b"\x80" + bytes(31), b"\x7f" + bytes(31), b"\xff" * 32, bytes(31) + b"\1"]); return bytes(x)
        return keyvalue(r, FAM[k], r.randrange(2 if k == "private_key" else 3))
    if k == "asset": return struct.pack("<q", r.choice([0, 1, -1, 255, 256, -256, (1 << 62) - 1, 1 - (1 << 62), r.randrange(1 << 40)])) + (b"\4EOS\0\0\0\0" if small else bytes([r.randrange(19)]) + symcode(r).encode().ljust(7, b"\0"))
    if k == "symbol": return bytes([r.randrange(19)]) + symcode(r).encode().ljust(7, b"\0")
    if k == "symbol_code": return symcode(r).encode().ljust(8, b"\0")
    if k == "time_point": return struct.pack("<q", r.choice([0, 1, -1, 1 << 32, -(1 << 40), 10 ** 15, r.randrange(4 * 10 ** 15)]) if small else r.randrange(4 * 10 ** 15) // 1000 * r.choice([1, 1000]))
    if k == "block_timestamp_type": return struct.pack("<I", r.choice([0, 1, 2, 1 << 20, r.randrange(1 << 31)]))
    if k in WIDTH:
        w = WIDTH[k]
        if k in ("float32", "float64"):
            f = "<f" if w == 4 else "<d"
            x = r.choice([0.0, -0.0, 1.0, -1.0, 1.5, -1.5, float("inf"), float("-inf"), 1e-40, -1e-40, 2.0, 3.4e38, 1e-45 if w == 4 else 5e-324]); 
            if r.random() < odd * .1: x = float("nan")
            return struct.pack(f, x)
        return r.choice([bytes(w), b"\xff" * w, bytes(w - 1) + b"\x80", b"\xff" * (w - 1) + b"\x7f", b"\1" + bytes(w - 1), bytes(w - 1) + b"\1", r.randbytes(w), r.randbytes(w), b"\0\1"[:w] + bytes(w - 2 if w > 1 else 0)])
    if k in STRUCTS:
        f = fields(k)
        return b"".join(W(t, tail and i == len(f) - 1) for i, (_, t) in enumerate(f))
    if k == "recurse": return wire(r, "var<transaction_trace_v0>", depth + 1, False, odd, small)
    if k == "opt": return b"\0" if r.random() < .3 + depth * .08 else (b"\1" if r.random() > odd * .2 else bytes([r.randrange(1, 256)])) + W(a[0])
    if k == "mne": return W(a[0])
    if k == "var": i = r.choice([0, len(a) - 1, r.randrange(len(a))] + [x for x in (127, 128) if x < len(a)]); return vu(i) + W(a[i])
    if k in ("pair", "tup"): return b"".join(W(x) for x in a)
    if k == "arr": return b"".join(W(a[0]) for _ in range(n))
    if k == "carr": return vu(n) + b"".join(W(a[0]) for _ in range(n))
    if k == "opq": x = W(a[0]) if r.random() > odd * .3 else r.randbytes(r.randrange(4)); return vu(len(x)) + x
    c = count() if depth or r.random() > .04 else (127 if not weightless(a[0]) else 3)
    if c > 20 and (k == "vec" and len(reach([s])) > 4 or kind(a[0]).startswith("float")): c = 4
    xs = [W(inner(s)[0]) for _ in range(c)]
    return vu(c) + b"".join(xs)
def near(r, w):
    """a variation of a binary (maybe not one of the type)"""
    b = bytearray(w)
    if b: i = r.randrange(len(b)); b[i] = r.choice([b[i] ^ 1, b[i] ^ 128, 0, 255, (b[i] + 1) & 255])
    return bytes(b)
# the types
SCALAR = BUILTIN + ["extended_asset"]
VEC = ["vec<int8>", "vec<uint8>", "vec<int16>", "vec<uint64>", "vec<float64>", "vec<string>", "vec<name>", "vec<e_s8>", "vec<vec<int8>>", "vec<opt<uint8>>", "vec<point>", "vec<bytes>", "vec<pair<uint8,string>>", "vec<arr2<int8>>", "vec<empty>", "vec<checksum256>", "vec<var<int8,string>>", "vec<float32>", "vec<int128>", "vec<node>"]
OPT = ["opt<int8>", "opt<bool>", "opt<uint8>", "opt<string>", "opt<uint64>", "opt<opt<int8>>", "opt<vec<int8>>", "opt<point>", "opt<float32>", "opt<e_u8>", "opt<node>", "opt<bytes>"]
SEQ = ["list<int8>", "list<string>", "deque<uint8>", "deque<bool>", "deque<opt<int8>>", "list<list<bool>>", "set<int8>", "set<string>", "set<bool>", "set<pair<uint8,string>>", "set<vec<uint8>>", "set<opt<int8>>", "map<uint8,string>", "map<string,int16>", "map<string,vec<uint8>>", "map<int8,map<int8,int8>>", "map<name,bool>", "map<var<bool,string>,opt<int8>>", "deque<point>", "list<float32>"]
TUP = ["pair<int8,string>", "tup<string>", "tup<int8,string,bool>", "tup<string,string>", "tup<vec<int8>,opt<uint8>,int16>", "arr1<string>", "arr3<int8>", "arr2<vec<uint8>>", "pair<vec<int8>,vec<int8>>", "tup<opt<string>,var<int8,string>,uint8>", "arr2<opt<bool>>"]
VAR = ["var<int8>", "var<string,int8>", "var<uint8,string,point>", "var<vec<int8>,opt<string>,float64>", "var<node,string>", many("uint8", 130)]
ENUM = list(ENUMS)
OWN = [k for k, v in STRUCTS.items() if v[0].startswith("zoo::")]

