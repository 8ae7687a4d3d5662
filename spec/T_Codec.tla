------------------------------- MODULE T_Codec --------------------------------
(* Conversions recorded for ABIs that were loaded before (e.abi: which one).    *)
EXTENDS Abi, Conf
AbiTexts == JsonDeserialize(IOEnv.ABIS)
\* (a definition that starts with the length of its version is a binary one)
Envs == TLCEval([i \in 1..Len(AbiTexts) |-> MeaningOf(IF At(AbiTexts[i], 1) = 14 THEN AbiOfBin(AbiTexts[i]) ELSE AbiOfJson(AbiTexts[i]))])
\* what the specification leaves open for a document
OpenDoc(ev) == \E i \in 1..Len(ev) : ev[i].t \in {"str", "num"} /\ \E n \in {"time_point", "time_point_sec", "block_timestamp_type", "float32"} : ScalarOpen(n, ev[i])
\* (times are checked first by length, so that the usual strings cost nothing)
MaybeOpen(ev) == \E i \in 1..Len(ev) : ev[i].t = "num" \/ (ev[i].t = "str" /\ Len(ev[i].v) > 0 /\ ev[i].v[1] \in {43, 45, 46} \cup 48..57)
Loose(ev) == MaybeOpen(ev) /\ OpenDoc(ev)
Bytes(r) == IF r.ok THEN OK(<<Wire(r.v)>>) ELSE FAIL
Hexed(r) == IF r.ok THEN OK(<<Wire(r.v), HexUpper(Wire(r.v))>>) ELSE FAIL
\* an empty container as the innermost of 129 (ordered) or any of 128 (by name) may or may not count as too deep
AtBorder(ev, reorder) == JsonDepth(ev) = IF reorder THEN MaxOpen ELSE MaxOpen + 1
JsonToBin(e, in, reorder, form(_)) ==
  LET m == Envs[e.abi]
      q == Query(m.env, in[1])
      d == Events(in[2])
  IN IF ~q.ok \/ ~d.ok THEN (IF LoneLow(in[2]) THEN Holds(e, TRUE, "") ELSE Is(e, FAIL))
     ELSE IF LoneLow(in[2]) \/ Loose(d.ev) \/ AtBorder(d.ev, reorder) THEN Holds(e, TRUE, "")
     ELSE Is(e, form(IF reorder THEN FromAnyOrder(q.env, q.n, d.ev) ELSE FromOrdered(q.env, q.n, d.ev)))
BinToJson(e, in) ==
  LET m == Envs[e.abi]
      q == Query(m.env, in[1])
      r == FromWire(q.env, q.n, in[2])
  IN IF ~q.ok THEN Is(e, FAIL) ELSE IF ~r.ok THEN Is(e, FAIL)
     ELSE IF e.st # "ok" \/ Len(e.out) # 3 THEN Holds(e, FALSE, "a document")
     ELSE LET d == Events(e.out[1]) want == JsonOf(q.env, q.n, r.v) IN
          IF ~d.ok THEN Holds(e, FALSE, "well-formed JSON")
          ELSE IF ~EvsFit(d.ev, want) THEN Holds(e, FALSE, [want |-> want])
          ELSE LET again == FromOrdered(q.env, q.n, d.ev) IN
               Holds(e, Loose(d.ev) \/ IF again.ok THEN e.out[2] = <<1>> /\ e.out[3] = Wire(again.v) ELSE e.out[2] = <<0>>, [again |-> IF again.ok THEN Wire(again.v) ELSE <<>>])
RECURSIVE CountAt(_, _)
CountAt(s, i) == IF i = 0 THEN 0 ELSE 10 * CountAt(s, i - 1) + s[i] - 48
\* very many elements: the count in front of them; everything else was compared by the driver
VeryMany(e) == Is(e, OK(<<VarU32(CountAt(e.in[3], Len(e.in[3])))>> \o [i \in 1..7 |-> <<1>>]))
CodecJudge(e) ==
  IF ~Envs[e.abi].ok THEN Is(e, FAIL) ELSE
  CASE e.op = "ord" -> JsonToBin(e, e.in, FALSE, Hexed)
    [] e.op = "reo" -> JsonToBin(e, e.in, TRUE, Hexed)
    [] e.op = "ordx" -> JsonToBin(e, e.in, FALSE, Bytes)
    [] e.op = "reox" -> JsonToBin(e, e.in, TRUE, Bytes)
    [] e.op = "big" -> VeryMany(e)
    [] e.op \in {"dec", "dech", "decx"} -> BinToJson(e, e.in)
=============================================================================
