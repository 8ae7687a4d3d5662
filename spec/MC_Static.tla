------------------------------- MODULE MC_Static ------------------------------
(***************************************************************************)
(* C++ types decoded by a machine that is fed one byte at a time and keeps a *)
(* list of what is still to be read; over a small alphabet, for every type   *)
(* of IOEnv.SETUP.  It must stop exactly where the declarative decoder does;  *)
(* what was read survives the trip through JSON and through the codecs of     *)
(* the type's ABI.                                                           *)
(***************************************************************************)
EXTENDS Static, Json, IOUtils
CONSTANT MaxLen
SSetup == TLCEval(JsonDeserialize(IOEnv.SETUP))
SList == SSetup.env
SEnv == TLCEval([x \in {SList[i].x : i \in 1..Len(SList)} |-> SList[CHOOSE i \in 1..Len(SList) : SList[i].x = x].e])
\* the same types as the ABI sees them
AEnv == TLCEval([x \in DOMAIN SEnv |-> IF SEnv[x].k = "tail" THEN [k |-> "extension", of |-> SEnv[x].of] ELSE SEnv[x]])
SRoots == {SSetup.roots[i] : i \in 1..Len(SSetup.roots)}
Alpha == {SSetup.bytes[i] : i \in 1..Len(SSetup.bytes)}
Texty == TLCEval({SSetup.json[i] : i \in 1..Len(SSetup.json)})   \* types with JSON
Abied == TLCEval({SSetup.abi[i] : i \in 1..Len(SSetup.abi)})     \* types with an ABI
OddT == TLCEval({SSetup.odd[i] : i \in 1..Len(SSetup.odd)})       \* types that hold sets or maps, whose encoding is sorted
\* --- the machine: [todo: types, buf: bytes of the item being read, out, st] ------
IsText(y) == y.k = "builtin" /\ y.n \in {"string", "bytes"}
IsVu(y) == y.k = "builtin" /\ y.n = "varuint32"
\* (counts beyond any input of the model: some that cannot be read to the end)
Many(t, n) == [i \in 1..(IF n > MaxLen THEN MaxLen + 1 ELSE n) |-> t]
\* whatever needs no byte is expanded
RECURSIVE Settle(_)
Settle(m) ==
  IF m.st # "run" THEN m
  ELSE IF m.todo = <<>> THEN [m EXCEPT !.st = "done"]
  ELSE LET y == Ent(SEnv, m.todo[1]) rest == Tail(m.todo) IN
  CASE y.k \in {"struct", "tuple", "pair"} -> Settle([m EXCEPT !.todo = [i \in 1..Len(y.f) |-> y.f[i].t] \o rest])
    [] y.k = "stdarray" -> Settle([m EXCEPT !.todo = Many(y.of, y.n) \o rest])
    [] OTHER -> m
FeedByte(m, b) ==
  LET y == Ent(SEnv, m.todo[1])
      rest == Tail(m.todo)
      buf == Append(m.buf, b)
      finish(out) == Settle([m EXCEPT !.todo = rest, !.buf = <<>>, !.out = @ \o out])
      count == b < 128
      n == Small(Dec32(buf, 1).v)
      fail == [m EXCEPT !.st = "fail"]
      more == [m EXCEPT !.buf = buf]
  IN CASE y.k = "optional" -> IF b = 0 THEN finish(<<0>>) ELSE Settle([m EXCEPT !.todo = <<y.of>> \o rest, !.out = Append(@, 1)])
       [] y.k = "tail" -> Assert(FALSE, "tails are replaced")
       [] IsVu(y) -> IF count THEN finish(VarU32(n)) ELSE IF Len(buf) = 5 THEN fail ELSE more
       [] y.k \in {"array", "list", "set", "map"} ->
            IF ~count THEN (IF Len(buf) = 5 THEN fail ELSE more)
            ELSE Settle([m EXCEPT !.todo = Many(y.of, n) \o rest, !.buf = <<>>, !.out = @ \o VarU32(n)])
       [] y.k = "variant" ->
            IF ~count THEN (IF Len(buf) = 5 THEN fail ELSE more)
            ELSE IF n >= Len(y.f) THEN fail
            ELSE Settle([m EXCEPT !.todo = <<y.f[n + 1].t>> \o rest, !.buf = <<>>, !.out = @ \o VarU32(n)])
       [] IsText(y) -> \* the length, then that many bytes
            IF \A i \in 1..Len(m.buf) : m.buf[i] >= 128 THEN (IF ~count THEN (IF Len(buf) = 5 THEN fail ELSE more) ELSE IF n = 0 THEN finish(<<0>>) ELSE more)
            ELSE LET c == Dec32(buf, 1) IN IF Len(buf) - c.next + 1 = Small(c.v) THEN finish(VarU32(Small(c.v)) \o Drop(buf, c.next - 1)) ELSE more
       [] OTHER -> LET w == IF y.n = "bool" THEN 1 ELSE Width[y.n] IN
            IF Len(buf) < w THEN more ELSE finish(IF y.n = "bool" THEN <<IF b = 0 THEN 0 ELSE 1>> ELSE buf)
\* a value that may be missing is there once there is a byte
RECURSIVE Here(_)
Here(m) == IF m.st = "run" /\ Ent(SEnv, m.todo[1]).k = "tail" THEN Here(Settle([m EXCEPT !.todo[1] = Ent(SEnv, m.todo[1]).of])) ELSE m
Feed(m, b) == LET h == Here(m) IN IF h.st = "run" THEN FeedByte(h, b) ELSE h
\* nothing in progress, and everything that is still to come may be missing
MayStop(m) == m.st = "done" \/ (m.st = "run" /\ m.buf = <<>> /\ \A i \in 1..Len(m.todo) : Ent(SEnv, m.todo[i]).k = "tail")
VARIABLES vT, vS, vM
vars == <<vT, vS, vM>>
Init == vT \in SRoots /\ vS = <<>> /\ vM = Settle([todo |-> <<vT>>, buf |-> <<>>, out |-> <<>>, st |-> "run"])
Next == vM.st = "run" /\ Len(vS) < MaxLen /\ \E b \in Alpha : vS' = Append(vS, b) /\ vM' = Feed(vM, b) /\ UNCHANGED vT
Emit == IF vM'.st \in {"done", "fail"} \/ MayStop(vM') THEN PrintT("CASE " \o ToJson([t |-> vT, s |-> vS', ok |-> vM'.st # "fail"])) ELSE TRUE
Spec == Init /\ [][Next /\ Emit]_vars
D == StaticDec(SEnv, vT, vS, 1)
\* truncated input is refused, and nothing behind the value is read
Stops == MayStop(vM) = (D.ok /\ D.next = Len(vS) + 1)
Early == vM.st = "run" /\ ~MayStop(vM) => ~D.ok
Same == vM.st = "done" /\ vT \notin OddT => Wire(D.v) = vM.out
\* what was read is a value: it is written in one way and read back as itself
Once == D.ok => LET w == Wire(D.v) r == StaticDec(SEnv, vT, w, 1) IN r.ok /\ r.v = D.v /\ r.next = Len(w) + 1
\* (bytes that are not UTF-8 have no text)
RECURSIVE Clean(_)
Clean(v) ==
  CASE v.k = "sc" -> v.n # "string" \/ LET c == Drop(v.b, Dec32(v.b, 1).next - 1) IN Sane(c) = c
    [] v.k = "nil" -> TRUE
    [] v.k = "some" -> Clean(v.v)
    [] v.k = "var" -> Clean(v.v)
    [] v.k = "arr" -> \A i \in 1..Len(v.a) : Clean(v.a[i])
    [] v.k = "obj" -> \A i \in 1..Len(v.f) : Clean(v.f[i])
Lossless == D.ok /\ vT \in Texty /\ Clean(D.v) =>
  LET r == FromStatic(SEnv, vT, JsonOf(SEnv, vT, D.v)) IN r.ok /\ r.v = D.v
\* the ABI's codecs mean the same
AbiBin == vT \in Abied => LET a == FromWire(AEnv, vT, vS) IN
  IF a.ok /\ ~("f" \in DOMAIN a.v /\ Len(a.v.f) < Len(SEnv[vT].f)) THEN D.ok /\ D.next = Len(vS) + 1 /\ D.v = a.v
  ELSE IF a.ok THEN D.ok /\ D.next = Len(vS) + 1 ELSE ~(D.ok /\ D.next = Len(vS) + 1)
AbiJson == D.ok /\ vT \in Abied /\ Clean(D.v) => LET e == JsonOf(SEnv, vT, D.v) o == FromOrdered(AEnv, vT, e) a == FromAnyOrder(AEnv, vT, e) IN
  o.ok /\ a.ok /\ Wire(o.v) = Wire(D.v) /\ Wire(a.v) = Wire(D.v) /\ JsonOf(AEnv, vT, o.v) = e
=============================================================================
