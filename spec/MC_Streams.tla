------------------------------ MODULE MC_Streams ------------------------------
(* Every history of up to MaxOps calls on small streams.                         *)
EXTENDS Streams, Json, IOUtils
CONSTANTS MaxOps, Out
Huge == {<<255, 255, 255, 255, 255, 255, 255, 255>>, <<0, 0, 0, 0, 1, 0, 0, 0>>}
OutOps == {<<99, 65>>, <<119>>, <<119, 66>>, <<119, 67, 68>>, <<114, 1, 2, 3, 4>>, <<43>>, <<45>>, <<110>>, <<58>>} \cup {<<104>> \o h : h \in Huge}
InOps == {<<k>> \o NumW(n, 8) : k \in {114, 117, 115, 107}, n \in 0..2} \cup {<<114>> \o h : h \in Huge} \cup {<<117>> \o h : h \in Huge} \cup {<<119, 1>>, <<119, 2>>, <<118>>, <<83>>, <<122>>}
Datas == {<<>>, <<1>>, <<1, 128>>, <<0, 1, 7>>, <<130, 0, 5>>}
VARIABLES vM, vHist, vFail
vars == <<vM, vHist, vFail>>
Init == /\ vHist = <<>> /\ vFail = FALSE
        /\ IF Out THEN \E c \in 0..6, p \in BOOLEAN : vM = OutNew(c, p) ELSE \E d \in Datas : vM = InNew(d)
Next == /\ Len(vHist) < MaxOps /\ ~vFail
        /\ \E op \in (IF Out THEN OutOps ELSE InOps) :
             LET x == IF Out THEN OutStep(vM, op) ELSE InStep(vM, op) IN
             /\ vM' = x.m /\ vHist' = Append(vHist, [op |-> op, ok |-> x.ok, b |-> x.b])
             /\ vFail' = (~Out /\ ~x.ok /\ ~Simple1(op))
First == IF Out THEN [cap |-> vM.cap, pretty |-> vM.pretty] ELSE [data |-> vM.data]
Emit == IF Len(vHist') = MaxOps \/ vFail' THEN PrintT("CASE " \o ToJson([first |-> First, ops |-> [i \in 1..Len(vHist') |-> vHist'[i].op]])) ELSE TRUE
Spec == Init /\ [][Next /\ Emit]_vars
\* ------------------------------------------------------------------ what streams are for
Bounds == IF Out THEN Len(vM.out) <= vM.cap /\ vM.ind >= 0 ELSE vM.pos <= Len(vM.data)
\* what was read is the data, without gaps or repetition
Taken == [i \in 1..Len(vHist) |-> IF vHist[i].ok /\ vHist[i].op[1] \in {114, 117, 119} THEN vHist[i].b ELSE <<>>]
AllReads == \A i \in 1..Len(vHist) : vHist[i].op[1] \in {114, 117, 119, 107} \/ (vHist[i].ok /\ vHist[i].op[1] = 109)
Exact == ~Out /\ AllReads => Flat(Taken) = Take(vM.data, vM.pos)
\* without line breaks, what was written is in the buffer, in order; a failed write left nothing
Plain == \A i \in 1..Len(vHist) : vHist[i].op[1] \in {99, 119, 114, 104}
Whole1 == Out /\ Plain => vM.out = Flat([i \in 1..Len(vHist) |-> IF vHist[i].ok /\ vHist[i].op[1] # 104 THEN Tail(vHist[i].op) ELSE <<>>])
\* the size counted by an unlimited stream is what a limited one needs: with that room everything succeeds, with less something fails
Sizes == Out /\ (\A i \in 1..Len(vHist) : vHist[i].op[1] # 104) =>
  LET ops == [i \in 1..Len(vHist) |-> vHist[i].op]
      free == RunOut(OutNew(0 - 1, vM.pretty), ops)
      n == Len(free.m.out)
      fits == RunOut(OutNew(n, vM.pretty), ops)
  IN /\ fits.ok = free.ok /\ fits.m.out = free.m.out
     /\ n > 0 => \E i \in 1..Len(ops) : free.ok[i] /\ ~RunOut(OutNew(n - 1, vM.pretty), ops).ok[i]
=============================================================================
