-------------------------------- MODULE T_Zoo ---------------------------------
(***************************************************************************)
(* The C++ types of the zoo.  IOEnv.ZOO lists them: name, entry (as in      *)
(* Codec, with nm: the name of the type in ABIs).  Values are given as      *)
(* binaries of the type, read by Static's StaticDec.                        *)
(***************************************************************************)
EXTENDS Abi, Conf
ZList == JsonDeserialize(IOEnv.ZOO)
ZEnv == TLCEval([x \in {ZList[i].x : i \in 1..Len(ZList)} |-> ZList[CHOOSE i \in 1..Len(ZList) : ZList[i].x = x].e])
ValueOf(t, w) == LET r == StaticDec(ZEnv, t, w, 1) IN IF r.ok /\ r.next = Len(w) + 1 THEN r.v ELSE [k |-> "not a value"]
U32(n) == NumW(n, 4)

\* ------------------------------------------------------------------ binary
ToBin(t, v) == LET b == Wire(v) IN OK(<<b, U32(Len(b)), B("xy") \o b, B("q") \o b, <<1>>, <<1, 1, 1, 1>>>>)
FromBin(t, s) == LET r == StaticDec(ZEnv, t, s, 1) IN IF r.ok THEN OK(<<Wire(r.v), U32(r.next - 1), <<1>>>>) ELSE FAIL
Cut(t, s) == OK(<<[n \in 1..(Len(s) + 1) |-> IF StaticDec(ZEnv, t, Take(s, n - 1), 1).ok THEN 1 ELSE 0]>>)
Reuse(t, s) == LET r == StaticDec(ZEnv, t, s, 1) IN IF r.ok THEN OK(<<Wire(r.v)>>) ELSE FAIL

\* ------------------------------------------------------------------ text
\* a text without the blanks between its tokens
RECURSIVE StripFrom(_, _, _, _)
StripFrom(s, i, inside, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF ~inside THEN StripFrom(s, i + 1, s[i] = 34, IF s[i] \in WS THEN acc ELSE Append(acc, s[i]))
  ELSE IF s[i] = 92 /\ i < Len(s) THEN StripFrom(s, i + 2, TRUE, acc \o <<s[i], s[i + 1]>>)
  ELSE StripFrom(s, i + 1, s[i] # 34, Append(acc, s[i]))
Strip(s) == StripFrom(s, 1, FALSE, <<>>)
Escaped(s) == \A i \in 1..Len(s) : s[i] >= 32 /\ s[i] # 127
\* a text shows a value: well-formed (UTF-8 included), nothing to escape left, the value's events
Shows(s, want) == LET d == Events(s) IN d.ok /\ Escaped(s) /\ EvsFit(d.ev, want)
Nameless(want) == \E i \in 1..Len(want) : want[i].t = "none"
Compact(e, want) ==
  IF Nameless(want) THEN Is(e, FAIL)
  ELSE IF e.st # "ok" THEN Holds(e, FALSE, "a text")
  ELSE IF ~Shows(e.out[1], want) THEN Holds(e, FALSE, [want |-> want])
  ELSE IF Strip(e.out[1]) # e.out[1] THEN Holds(e, FALSE, "no blanks")
  ELSE IF Strip(e.out[2]) # e.out[1] THEN Holds(e, FALSE, "pretty text is the compact one with blanks")
  ELSE Holds(e, Drop(e.out, 2) = <<<<1>>, <<1>>, <<1>>>>, "sizes")
\* what the specification leaves open for a document (dates that do not exist, ...)
OpenEv(x) == x.t \in {"str", "num"} /\ \E n \in {"time_point", "time_point_sec", "block_timestamp_type", "float32"} : ScalarOpen(n, x)
DocOpen(ev) == \E i \in 1..Len(ev) : (ev[i].t = "num" \/ (ev[i].t = "str" /\ Len(ev[i].v) > 0 /\ ev[i].v[1] \in {43, 45, 46} \cup 48..57)) /\ OpenEv(ev[i])
Bytes(r) == IF r.ok THEN OK(<<Wire(r.v)>>) ELSE FAIL
FromJson(e, t, s) ==
  LET d == Events(s) IN
  IF LoneLow(s) THEN Holds(e, TRUE, "") ELSE IF ~d.ok THEN Is(e, FAIL) ELSE IF DocOpen(d.ev) THEN Holds(e, TRUE, "") ELSE Is(e, Bytes(FromStatic(ZEnv, t, d.ev)))

\* into an object that holds a value: members the text does not mention keep what they have
IntoOld(e, t, s, old) ==
  LET d == Events(s) IN
  IF LoneLow(s) THEN Holds(e, TRUE, "") ELSE IF ~d.ok THEN Is(e, FAIL) ELSE IF DocOpen(d.ev) THEN Holds(e, TRUE, "") ELSE Is(e, Bytes(SJ(ZEnv, t, d.ev, 1, old)))

\* ------------------------------------------------------------------ keys
Values(e) == [i \in 1..(Len(e.in) - 1) |-> ValueOf(e.in[1], e.in[i + 1])]
Comparable(a, b) == ~HasNaN(a) /\ ~HasNaN(b) /\ Cardinality(Assets(a) \cup Assets(b)) <= 1
KeysOk(vs, ks) == \A i, j \in 1..Len(vs) : (i <= j /\ Comparable(vs[i], vs[j])) => KeyOrder(CmpV(vs[i], vs[j]), ks[i], ks[j])
Keys(e) == LET vs == Values(e) n == Len(vs) IN
  IF e.st # "ok" THEN Holds(e, FALSE, "keys")
  ELSE IF e.out[n + 1] # <<1>> THEN Holds(e, FALSE, "the key is what any stream gets")
  ELSE Holds(e, KeysOk(vs, Take(e.out, n)), [order |-> [i \in 1..n |-> [j \in 1..n |-> IF Comparable(vs[i], vs[j]) THEN CmpV(vs[i], vs[j]) ELSE 2]]])
Pairs(vs, f(_, _)) == LET n == Len(vs) IN [x \in 1..(n * n) |-> f(vs[((x - 1) \div n) + 1], vs[((x - 1) % n) + 1])]
CmpBits(a, b) == LET c == CmpV(a, b) IN IF c < 0 THEN 1 ELSE IF c > 0 THEN 2 ELSE 0
Native(e) == LET vs == Values(e) n == Len(vs) want == Pairs(vs, LAMBDA a, b : IF Comparable(a, b) THEN CmpBits(a, b) ELSE 8) IN
  Holds(e, e.st = "ok" /\ Len(e.out) = 1 /\ Len(e.out[1]) = Len(want) /\ \A x \in 1..Len(want) : want[x] = 8 \/ e.out[1][x] = want[x], want)
\* equal numbers are +0 and -0
Equal(e) == LET vs == Values(e) n == Len(vs) want == Pairs(vs, LAMBDA a, b : IF Comparable(a, b) THEN (IF CmpV(a, b) = 0 THEN 1 ELSE 0) ELSE 8) IN
  Holds(e, e.st = "ok" /\ Len(e.out) = 1 /\ Len(e.out[1]) = Len(want) /\ \A x \in 1..Len(want) : want[x] = 8 \/ e.out[1][x] = want[x], want)
\* not a verdict: keys made another way, which deserve a closer look
SameKeys(e) == LET vs == Values(e) IN Holds(e, e.st = "ok" /\ \A i \in 1..Len(vs) : HasNaN(vs[i]) \/ e.out[i] = KeyV(ZEnv, e.in[1], vs[i]), [i \in 1..Len(vs) |-> KeyV(ZEnv, e.in[1], vs[i])])

\* ------------------------------------------------------------------ ABIs of types
Kids(t) == LET y == Ent(ZEnv, t) IN
  CASE y.k \in {"builtin", "named", "opaque"} -> <<>>
    [] y.k \in {"struct", "variant", "pair"} -> [i \in 1..Len(y.f) |-> y.f[i].t]
    [] OTHER -> <<y.of>>
\* everything a type is made of
RECURSIVE ReachFrom(_, _)
ReachFrom(seen, todo) == IF todo = {} THEN seen ELSE LET t == CHOOSE x \in todo : TRUE s2 == seen \cup {t} IN ReachFrom(s2, (todo \cup {Kids(t)[i] : i \in 1..Len(Kids(t))}) \ s2)
Nestable1(t) == LET y == Ent(ZEnv, t) IN
  /\ y.k \in {"array", "optional"} => Ent(ZEnv, y.of).k \notin {"array", "optional", "tail"}
  /\ y.k = "tail" => Ent(ZEnv, y.of).k # "tail"
Nestable(t) == \A x \in ReachFrom({}, {t}) : Nestable1(x)
Nm(t) == Ent(ZEnv, t).nm
\* the ABI says about the type's name what the type is
Described1(env, t) ==
  LET y == Ent(ZEnv, t) q == Query(env, y.nm) z == IF q.ok THEN q.env[q.n] ELSE [k |-> "unknown"] IN
  /\ q.ok /\ q.n = y.nm
  /\ CASE y.k \in {"builtin", "opaque"} -> z.k = "builtin"
       [] y.k = "array" -> z = [k |-> "array", of |-> Nm(y.of)]
       [] y.k = "optional" -> z = [k |-> "optional", of |-> Nm(y.of)]
       [] y.k = "tail" -> z = [k |-> "extension", of |-> Nm(y.of)]
       [] y.k = "struct" -> z = [k |-> "struct", f |-> [i \in 1..Len(y.f) |-> [n |-> y.f[i].n, t |-> Nm(y.f[i].t)]]]
       [] y.k = "variant" -> z = [k |-> "variant", f |-> [i \in 1..Len(y.f) |-> [n |-> Nm(y.f[i].t), t |-> Nm(y.f[i].t)]]]
Described(env, t) == \A x \in ReachFrom({}, {t}) : Described1(env, x)
AbiOfType(e, t) ==
  IF ~Nestable(t) THEN Is(e, FAIL)
  ELSE IF e.st # "ok" THEN Holds(e, FALSE, "an ABI")
  ELSE IF e.out[1] # Nm(t) THEN Holds(e, FALSE, [name |-> Nm(t)])
  ELSE LET r == AbiOfBin(e.out[2]) m == MeaningOf(r) IN
       IF ~m.ok THEN Holds(e, FALSE, "a well-formed ABI") ELSE Holds(e, Described(m.env, t), "what the type is")
AbiJson(e, t, v) ==
  IF e.st # "ok" THEN Holds(e, FALSE, "a document")
  ELSE IF ~Shows(e.out[1], JsonOf(ZEnv, t, v)) THEN Holds(e, FALSE, [want |-> JsonOf(ZEnv, t, v)])
  ELSE LET again == FromStatic(ZEnv, t, Events(e.out[1]).ev) IN
       Holds(e, again.ok /\ e.out[2] = <<1>> /\ e.out[3] = Wire(again.v), [again |-> IF again.ok THEN Wire(again.v) ELSE <<>>])
Via(e, t, v) ==
  IF e.st # "ok" THEN Holds(e, FALSE, "documents")
  ELSE LET want == JsonOf(ZEnv, t, v) IN
       IF ~Shows(e.out[1], want) \/ ~Shows(e.out[4], want) THEN Holds(e, FALSE, [want |-> want])
       ELSE LET a == FromStatic(ZEnv, t, Events(e.out[1]).ev) b == FromStatic(ZEnv, t, Events(e.out[4]).ev) IN
            Holds(e, a.ok /\ b.ok /\ e.out[2] = Wire(a.v) /\ e.out[3] = Wire(a.v) /\ e.out[5] = <<1>> /\ e.out[6] = Wire(b.v), [bin |-> Wire(a.v)])

\* ------------------------------------------------------------------ opaque values
(* What is left of an opaque value is a text of bytes; every step takes what it reads *)
(* off its front.                                                                     *)
Took(b, rest) == [ok |-> TRUE, b |-> b, rest |-> rest]
NotTook == [ok |-> FALSE, b |-> <<>>, rest |-> <<>>]
TakeV(t, s) == LET r == StaticDec(ZEnv, t, s, 1) IN IF r.ok THEN Took(Wire(r.v), Drop(s, r.next - 1)) ELSE NotTook
OpqStep(t, s, k) == \* t: type inside
  CASE k = 101 -> Took(IF s = <<>> THEN <<1>> ELSE <<0>>, s)
    [] k \in {117, 85} -> TakeV(t, s)
    [] k = 116 -> Took(VarU32(Len(s)) \o s, s)
    [] k = 110 -> LET d == Dec32(s, 1) IN IF d.ok THEN Took(Ext(d.v, 8), Drop(s, d.next - 1)) ELSE NotTook
    [] k \in {120, 88} -> TakeV(ZEnv[t].of, s)
RECURSIVE OpqRun(_, _, _, _)
OpqRun(t, s, ks, acc) ==
  IF ks = <<>> THEN acc
  ELSE LET x == OpqStep(t, s, ks[1]) IN IF x.ok THEN OpqRun(t, x.rest, Tail(ks), Append(acc, <<1>> \o x.b)) ELSE Append(acc, <<0>>)
Opaque(in) ==
  LET t == ZEnv[in[1]].of
      r == VarBytes(in[3], 1, 10, 8)
  IN IF in[2] = B("v") THEN OK(OpqRun(t, in[3], in[4], <<>>))
     ELSE IF ~r.ok THEN FAIL
     ELSE IF in[2] = B("s") THEN OK(OpqRun(t, r.b, in[4], <<>>))
     ELSE OK(<<U32(r.next - 1)>> \o OpqRun(t, r.b, in[4], <<>>))

\* states of transactions by name
Statuses == <<B("executed"), B("soft_fail"), B("hard_fail"), B("delayed"), B("expired")>>
StatusOf(s) == IF \E i \in 1..5 : Statuses[i] = s THEN LET i == CHOOSE j \in 1..5 : Statuses[j] = s IN OK(<<<<i - 1>>, s>>) ELSE FAIL
ZooJudge(e) ==
  LET t == e.in[1] IN
  CASE e.op = "z_tobin" -> Is(e, ToBin(t, ValueOf(t, e.in[2])))
    [] e.op = "z_frombin" -> Is(e, FromBin(t, e.in[2]))
    [] e.op = "z_cut" -> Is(e, Cut(t, e.in[2]))
    [] e.op = "z_reuse" -> Is(e, Reuse(t, e.in[2]))
    [] e.op = "z_opq" -> Is(e, Opaque(e.in))
    [] e.op = "z_json" -> Compact(e, JsonOf(ZEnv, t, ValueOf(t, e.in[2])))
    [] e.op = "z_fromjson" -> FromJson(e, t, e.in[2])
    [] e.op = "z_jreuse" -> IntoOld(e, t, e.in[2], ValueOf(t, e.in[3]))
    [] e.op = "z_keys" -> Keys(e)
    [] e.op = "z_cmp" -> Native(e)
    [] e.op = "z_eq" -> Equal(e)
    [] e.op = "z_abi" -> AbiOfType(e, t)
    [] e.op = "z_abijson" -> AbiJson(e, t, ValueOf(t, e.in[2]))
    [] e.op = "ship_status" -> Is(e, StatusOf(t))
    [] e.op = "ship_status_name" -> Is(e, IF t[1] < 5 THEN OK(<<Statuses[t[1] + 1]>>) ELSE FAIL)
    [] e.op = "z_via" -> Via(e, t, ValueOf(t, e.in[2]))
=============================================================================
