------------------------------- MODULE T_Hook ----------------------------------
(* Conversions with a hook, recorded: without it, with one that counts, with one   *)
(* that stops, with one that converts the same thing meanwhile, and without again. *)
EXTENDS Machines, Conf
AbiTexts == JsonDeserialize(IOEnv.ABIS)
Envs == TLCEval([i \in 1..Len(AbiTexts) |-> MeaningOf(AbiOfJson(AbiTexts[i]))])
ToNat(b) == b[1] + 256 * b[2] + 65536 * b[3]
Expected(q, way, data) ==
  IF ~q.ok THEN [open |-> FALSE, ok |-> FALSE, tree |-> Nil]
  ELSE IF way = 2 THEN LET r == FromWire(q.env, q.n, data) IN [open |-> FALSE, ok |-> r.ok, tree |-> r.v]
  ELSE LET d == Events(data) IN
       IF ~d.ok THEN [open |-> LoneLow(data), ok |-> FALSE, tree |-> Nil]
       ELSE LET r == IF way = 1 THEN FromAnyOrder(q.env, q.n, d.ev) ELSE FromOrdered(q.env, q.n, d.ev) IN
            [open |-> LoneLow(data) \/ (way = 1 /\ JsonDepth(d.ev) = MaxOpen) \/ (way = 0 /\ JsonDepth(d.ev) = MaxOpen + 1), ok |-> r.ok, tree |-> r.v]
\* in: type, way, data, k, kind of exception, where the hook's positions come from; k counts from 1 to one behind the last call
HookJudge(e) ==
  IF ~Envs[e.abi].ok THEN Is(e, FAIL) ELSE IF e.op = "endless" THEN Is(e, OK(<<<<1>>, <<1>>>>)) ELSE IF e.st # "ok" \/ Len(e.out) # 11 THEN Is(e, FAIL) ELSE
  LET q == Query(Envs[e.abi].env, e.in[1])
      want == Expected(q, e.in[2][1], e.in[3])
      n == ToNat(e.out[4])
      k == 1 + (ToNat(e.in[4]) % (n + 1))
      at == [i \in 1..(Len(e.out[11]) \div 4) |-> ToNat(SubSeq(e.out[11], 4 * i - 3, 4 * i))]
      leaf == MaxLeaf(want.tree) + Gap
  IN IF ~q.ok THEN Is(e, FAIL)
     ELSE Holds(e, /\ (want.open \/ e.out[1] = Bit(want.ok))
                   /\ ((want.ok /\ e.out[1] = <<1>> /\ e.in[2][1] # 2) => e.out[2] = Wire(want.tree))
                   /\ e.out[3] = <<1>>                                  \* counting changes nothing
                   /\ ((want.ok /\ e.out[1] = <<1>>) => n >= Inside(want.tree))
                   /\ e.out[5] = Bit(k <= n)                            \* stopped, with what was thrown
                   /\ ToNat(e.out[6]) = IF k <= n THEN k ELSE n         \* and not called again
                   /\ e.out[7] = <<1>> /\ e.out[8] = <<1>> /\ e.out[9] = <<1>> /\ e.out[10] = <<1>>
                   /\ \A i \in 1..Len(at) : i > 1 => at[i] >= at[i - 1]
                   /\ ((want.ok /\ e.in[2][1] = 2) => \A i \in 1..Len(at) : at[i] <= (IF i = 1 THEN 0 ELSE at[i - 1]) + leaf)
                   /\ ((want.ok /\ e.in[2][1] = 2 /\ n <= 64) => Len(e.in[3]) <= (IF at = <<>> THEN 0 ELSE at[Len(at)]) + leaf),
                [ok |-> want.ok, n |-> IF want.ok THEN Inside(want.tree) ELSE 0, k |-> k])
=============================================================================
