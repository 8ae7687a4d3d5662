"""the types of MC_Static"""
import tempfile
from zoo import *
ROOTS = ["bool", "uint8", "int16", "varuint32", "string", "bytes", "vec<int8>", "vec<uint8>", "deque<bool>", "vec<int16>", "vec<string>", "vec<opt<uint8>>", "vec<vec<int8>>", "vec<var<int8,string>>",
         "opt<int8>", "opt<bool>", "opt<string>", "opt<opt<int8>>", "opt<vec<int8>>", "var<int8>", "var<string,int8>", "var<vec<int8>,opt<string>,bool>", "pair<int8,string>", "tup<vec<int8>,opt<uint8>>", "arr2<opt<bool>>", "arr2<vec<uint8>>",
         "list<string>", "deque<opt<int8>>", "set<int8>", "set<string>", "map<uint8,bool>", "map<bool,opt<int8>>", "empty", "point", "ofirst", "oonly", "tailed", "tails", "sub", "wfirst", "var<int8,empty>", "list<list<bool>>", "opt<empty>"]
def odd(t): return any(kind(x) in ("set", "map") for x in reach([t]))
def model(c, quick, thorough, roots=ROOTS):
    """behaviours (type, bytes, accepted)"""
    fd, p = tempfile.mkstemp(prefix="verif_static_", suffix=".json"); os.close(fd)
    abi = lambda t: can_abi(t) and nests(t) and can_json(t) and can_parse(t)
    js = lambda t: can_json(t) and can_parse(t) and not any(kind(x) == "opt" and kind(inner(x)[0]) == "opt" for x in reach([t])) # (null is null)
    json.dump({"env": [entry(x) for x in reach(roots)], "roots": [bs(x) for x in roots], "bytes": [0, 1, 2, 128, 255],
               "json": [bs(x) for x in roots if js(x)], "abi": [bs(x) for x in roots if abi(x)], "odd": [bs(x) for x in roots if odd(x)]}, open(p, "w"))
    n = c.pick(quick, thorough)
    try: got = c.mc("MC_Static", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Stops Early Same Once Lossless AbiBin AbiJson\nCONSTANT MaxLen = %d\n" % n, env={"SETUP": p, "MC": "MaxLen=%d" % n}, timeout=3000)
    finally: os.unlink(p)
    return [(bytes(x["t"]).decode(), bytes(x["s"]), x["ok"]) for x in got]
