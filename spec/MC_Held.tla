------------------------------- MODULE MC_Held -------------------------------
(* Contexts used at the same time, each by its own thread.  A call begins, writes  *)
(* in the memory of its context and ends by handing that memory out.  Each context  *)
(* has its own memory: what has been handed out can change only by a call of the     *)
(* same thread.  Histories are in the order in which the calls ended.                *)
EXTENDS Bytes, Json, IOUtils
CONSTANT MaxCalls
Setup == JsonDeserialize(IOEnv.SETUP)
Calls == TLCEval(Setup.calls)
Ctxs == TLCEval({Calls[i].ctx : i \in 1..Len(Calls)})
VARIABLES vHist, vMem, vOut, vBusy
vars == <<vHist, vMem, vOut, vBusy>>
Nothing == <<0, 0>>
Init == vHist = <<>> /\ vMem = [k \in Ctxs |-> Nothing] /\ vOut = [k \in Ctxs |-> Nothing] /\ vBusy = [k \in Ctxs |-> 0]
Running == Cardinality({k \in Ctxs : vBusy[k] > 0})
Begin(i) == LET k == Calls[i].ctx IN
  /\ vBusy[k] = 0 /\ Len(vHist) + Running < MaxCalls
  /\ vBusy' = [vBusy EXCEPT ![k] = i]
  /\ vOut' = [vOut EXCEPT ![k] = Nothing]              \* nothing handed out before may be read any more
  /\ vMem' = [vMem EXCEPT ![k] = <<i, 0>>]             \* being written
  /\ UNCHANGED vHist
End(k) ==
  /\ vBusy[k] > 0
  /\ vHist' = Append(vHist, vBusy[k])
  /\ vMem' = [vMem EXCEPT ![k] = <<vBusy[k], Len(vHist) + 1>>]
  /\ vOut' = [vOut EXCEPT ![k] = <<vBusy[k], Len(vHist) + 1>>]
  /\ vBusy' = [vBusy EXCEPT ![k] = 0]
Next == (\E i \in 1..Len(Calls) : Begin(i)) \/ (\E k \in Ctxs : End(k))
Emit == IF Len(vHist') = MaxCalls /\ Len(vHist) < MaxCalls THEN PrintT("CASE " \o ToJson(vHist')) ELSE TRUE
Spec == Init /\ [][Next /\ Emit]_vars
Kept == \A k \in Ctxs : vOut[k] # Nothing => vMem[k] = vOut[k]
\* what is handed out is the answer of the last call on that context
LastOf(k) == LET s == {i \in 1..Len(vHist) : Calls[vHist[i]].ctx = k} IN IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : j <= i
Sound == \A k \in Ctxs : IF vBusy[k] > 0 \/ LastOf(k) = 0 THEN vOut[k] = Nothing ELSE vOut[k] = <<vHist[LastOf(k)], LastOf(k)>>
=============================================================================
