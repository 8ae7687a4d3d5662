"""C08 keys sort like values"""
import random, tempfile
import core
from zoo import *
class Tape(random.Random):
    """a source of randomness that can be played again, with changes"""
    def __init__(self, r, tape=None): self.r, self.tape, self.i = r, tape if tape is not None else [], 0
    def getrandbits(self, k):
        if self.i == len(self.tape): self.tape.append(None)
        x = self.tape[self.i]
        if x is None or x[1] != k: x = self.tape[self.i] = (self.r.getrandbits(k), k)
        self.i += 1
        return x[0]
    def random(self): return self.getrandbits(53) / (1 << 53)
    def randbytes(self, n): return self.getrandbits(n * 8).to_bytes(n, "little") if n else b""
def cluster(r, t, n, small=True):
    """values of a type that differ in few places"""
    tape = Tape(r); w = wire(tape, t, small=small)
    out = [w]
    while len(out) < n:
        t2 = list(tape.tape)
        for _ in range(r.choice([1, 1, 1, 2])):
            if t2: t2[r.randrange(len(t2))] = None
        out.append(wire(Tape(r, t2), t, small=small))
    r.shuffle(out)
    return out
MC = ["int8", "int16", "float32", "varuint32", "string", "bytes", "vec<int8>", "vec<uint8>", "vec<uint8>", "vec<int16>", "vec<string>", "vec<vec<int8>>", "vec<opt<uint8>>", "vec<e_s8>", "vec<empty>", "opt<int8>", "opt<string>", "opt<opt<int8>>", "opt<vec<int8>>", "var<bool,string>", "pair<bool,string>", "pair<vec<int8>,bool>", "tup<string,opt<bool>>", "arr2<vec<uint8>>", "set<string>", "map<bool,opt<int8>>", "opt<empty>", "deque<bool>", "list<list<bool>>", "vec<float32>"]
# bigger universes: shorter values
MC1 = ["vec<vec<string>>", "vec<opt<string>>", "map<string,vec<uint8>>", "var<vec<int8>,opt<string>,bool>", "tup<string,string>", "opt<opt<string>>", "vec<var<bool,int16>>", "vec<pair<bool,string>>", "vec<arr2<bool>>", "opt<pair<int8,bool>>"]
NUMS = {"int8": 8, "uint8": 8, "int16": 16, "uint16": 16, "int32": 32, "uint32": 32, "int64": 64, "uint64": 64, "int128": 128, "uint128": 128, "varuint32": 32, "float32": 32, "float64": 64, "time_point": 64, "time_point_sec": 32, "block_timestamp_type": 32, "name": 64, "checksum160": 160, "checksum256": 256, "checksum512": 512, "e_s8": 8, "e_u8": 8, "e_s16": 16, "e_u64": 64, "symbol_code": 64, "symbol": 64}
FLOATS = ("float32", "float64")
def run(c):
    r = c.rng
    more = ["opt<var<int8,string>>", "vec<list<string>>", "opt<arr2<int8>>", "pair<opt<int8>,opt<string>>", "tup<vec<string>,int8>", "arr2<opt<vec<int8>>>", "list<opt<list<int8>>>", "vec<set<int8>>", "map<string,string>", "opt<map<int8,int8>>", "var<opt<int8>,vec<int8>>", "vec<tup<string>>", "vec<uint16>", "opt<name>", "pair<float64,float32>", "vec<e_u8>", "vec<e_s16>", "opt<e_s8>", "deque<e_u64>", "vec<varuint32>", "list<int8>", "list<uint8>", "deque<int8>", "set<uint8>", "opt<list<uint8>>"]
    types = [t for t in dict.fromkeys(SCALAR + VEC + OPT + SEQ + TUP + VAR + ENUM + ["keyed", "point", "base", "twice", "mixed", "empty", "node", "derived", "extended_asset", "scalars", "holder"] + MC + MC1 + more) if can_key(t)]
    setup(types)
    ops = ["z_keys", "z_cmp", "z_eq"]
    us = units(types, ops)
    cases = []
    def block(t, ws):
        cases.append(("z_keys", [t.encode()] + ws))
        if can_cmp(t): cases.append((r.choice(["z_cmp", "z_cmp", "z_eq"]), [t.encode()] + ws))
    # all pairs of small values
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT MaxLen = %d\nINVARIANTS Monotone Same Anti\n"
    for n, roots in ((2, MC), (c.pick(1, 2), MC1)):
        fd, p = tempfile.mkstemp(prefix="verif_keys_", suffix=".json"); os.close(fd)
        if n == 2 and roots is MC1: roots = [t for t in roots if t not in ("vec<vec<string>>", "map<string,vec<uint8>>", "vec<pair<bool,string>>", "vec<opt<string>>")]
        json.dump({"env": [entry(x) for x in reach(roots)], "roots": [bs(x) for x in roots]}, open(p, "w"))
        try: got = c.mc("MC_Keys", cfg % n, env={"SETUP": p, "MC": "MaxLen=%d" % n})
        finally: os.unlink(p)
        by = {}
        for x in got: by.setdefault(bytes(x["t"]).decode(), []).append(bytes(x["w"]))
        for t, ws in by.items():
            ws = sorted(set(ws))
            if len(ws) > c.pick(60, 400): ws = r.sample(ws, c.pick(60, 400))
            bl = [ws[i:i + 8] for i in range(0, len(ws), 8)]
            for i in range(len(bl)):
                for j in range(max(i, 1) if len(bl) > 1 else 0, len(bl)): 
                    if i != j or len(bl) == 1: block(t, bl[i] + (bl[j] if i != j else []))
    for t in types:
        for _ in range(c.pick(5, 60)):
            n = r.choice([4, 8, 12]) if len(reach([t])) < 12 else 6
            block(t, cluster(r, t, n, r.random() < .8))
        block(t, [wire(r, t) for _ in range(5)])
    # numbers of all sizes, each next to those around it
    for t, k in NUMS.items():
        if t not in types: continue
        vs = sorted(set(x for i in range(k) for x in ((1 << i) - 1, 1 << i, (1 << i) + 1) if x < 1 << k) | {x ^ ((1 << k) - 1) for i in range(k) for x in ((1 << i) - 1, 1 << i, (1 << i) + 1) if x < 1 << k})
        if t in FLOATS: # around every power of two
            m = {"float32": 23, "float64": 52}[t]; e = k - 1 - m
            vs = sorted({(s << k - 1) | (x << m) | y for s in (0, 1) for x in (range(1 << e) if e == 8 else [0, 1, 2, 1022, 1023, 1024, 2045, 2046] + r.sample(range(2047), 60)) for y in (0, 1, (1 << m) - 1) if x < (1 << e) - 1})
        enc = (lambda v: vu(v)) if t == "varuint32" else (lambda v: v.to_bytes(k // 8, "little"))
        n = 14
        for i in range(0, len(vs) - 1, n - 2): block(t, [enc(v) for v in vs[i:i + n]])
        for _ in range(3): block(t, [enc(v) for v in r.sample(vs, min(n, len(vs)))])
        for v in ("vec<%s>" % t, "opt<%s>" % t):
            if v in types:
                p = vu(1)
                for i in range(0, len(vs) - 1, 11): block(v, [p + enc(x) for x in vs[i:i + 12]])
    t = many("uint8", 130)
    block(t, [vu(i) + bytes([v]) for i in (0, 1, 126, 127, 128, 129) for v in (0, 255)])
    evs = c.conform(us, "T_Zoo", "ZooJudge", cases)
    # where keys are made in another way than the specification's: more values close to those
    keys = [e for e in evs if e["op"] == "z_keys" and e["st"] == "ok"]
    odd, st = core.validate("T_Zoo", "SameKeys", keys)
    if odd:
        todo = [e for e in keys if e["id"] in odd]
        c.notes["keys unlike the specification's"] = len(todo)
        cases = []
        for e in r.sample(todo, min(len(todo), 40)):
            t = e["in"][0].decode()
            for _ in range(8): cases.append(("z_keys", e["in"] + cluster(r, t, 10)))
        c.conform(us, "T_Zoo", "ZooJudge", cases)
    return c.finish("TLC: every pair of small values of %d types (lists up to 2 elements, bytes around 0 and the sign): keys sort like values and are prefix-free; replayed; clusters of values that differ in few places for %d types, compared pairwise with the code's keys and its own < and ==" % (len(MC) + len(MC1), len(types)))
