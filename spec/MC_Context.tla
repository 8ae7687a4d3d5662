------------------------------ MODULE MC_Context ------------------------------
(* Every history of up to MaxCalls calls out of a list given by the harness.     *)
(* What is in force is a function of the history alone: the last successful       *)
(* load for that contract in that context.                                       *)
EXTENDS Context, Json, IOUtils
CONSTANT MaxCalls
Setup == JsonDeserialize(IOEnv.SETUP)
DefOf(f, data) == CASE f = B("set_abi") -> AbiOfJson(data)
                    [] f = B("set_abi_bin") -> AbiOfBin(data)
                    [] f = B("set_abi_hex") -> IF IsHex(data) THEN AbiOfBin(UnHex(data)) ELSE NoDef
LoadedOf(x) == LET r == DefOf(x[1], x[2]) m == MeaningOf(r) IN IF m.ok THEN [ok |-> TRUE, d |-> r.d, env |-> m.env] ELSE [ok |-> FALSE]
Loaded == TLCEval([i \in 1..Len(Setup.abis) |-> LoadedOf(Setup.abis[i])])
Calls == Setup.calls
VARIABLES vHist, vCtxs, vAns
vars == <<vHist, vCtxs, vAns>>
NoLoad == [ok |-> FALSE]
LoadFor(call) == IF call.op \in Loads THEN Loaded[call.ref] ELSE NoLoad
\* the answers of an ideal implementation
Bad1 == [ok |-> FALSE, out |-> <<>>]
Good(x) == [ok |-> TRUE, out |-> x]
Ideal(c, call, load) ==
  CASE call.op \in Loads -> IF load.ok THEN Good(<<>>) ELSE Bad1
    [] call.op \in {"action", "table"} -> IF ~Has(c, call.contract) THEN Bad1
         ELSE LET m == c.abis[call.contract] a == LookUp(IF call.op = "action" THEN m.d.actions ELSE m.d.tables, call.a) IN IF a.ok THEN Good(a.out[1]) ELSE Bad1
    [] call.op \in Bins -> IF ~Has(c, call.contract) THEN Bad1
         ELSE LET w == ToBin(c.abis[call.contract], call.a, call.b, call.op # "json_to_bin") IN IF w.r.ok THEN Good(w.r.out) ELSE Bad1
    [] call.op = "bin" -> LET b == CHOOSE x \in c.bin : TRUE IN Good(b \o HexUpper(b))
    [] call.op = "new" -> Good(<<>>)
Init == vHist = <<>> /\ vCtxs = [k \in 0..1 |-> NewCtx] /\ vAns = <<>>
Next == /\ Len(vHist) < MaxCalls
        /\ \E i \in 1..Len(Calls) :
             LET call == Calls[i] c == vCtxs[call.ctx] got == Ideal(c, call, LoadFor(call)) IN
             /\ vHist' = Append(vHist, i)
             /\ vAns' = Append(vAns, got)
             /\ vCtxs' = [vCtxs EXCEPT ![call.ctx] = After(c, call, LoadFor(call), got)]
Emit == IF Len(vHist') = MaxCalls THEN PrintT("CASE " \o ToJson(vHist')) ELSE TRUE
Spec == Init /\ [][Next /\ Emit]_vars
\* ------------------------------------------------------------------ the same without a state
At1(i) == Calls[vHist[i]]
N == Len(vHist)
Alive(k) == LET s == {i \in 1..N : At1(i).op = "new" /\ At1(i).ctx = k} IN IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : j <= i
InForce(k, contract) ==
  LET s == {i \in (Alive(k) + 1)..N : At1(i).ctx = k /\ At1(i).op \in Loads /\ At1(i).contract = contract /\ Loaded[At1(i).ref].ok}
  IN IF s = {} THEN NoLoad ELSE Loaded[At1(CHOOSE i \in s : \A j \in s : j <= i).ref]
Contracts == {Calls[i].contract : i \in 1..Len(Calls)}
ByHistory == \A k \in 0..1, x \in Contracts :
  IF Has(vCtxs[k], x) THEN vCtxs[k].abis[x] = InForce(k, x) /\ vCtxs[k].abis[x].ok ELSE ~InForce(k, x).ok
\* the retrievable binary is that of the last successful conversion to binary (or nothing, once a later one failed)
BinByHistory == \A k \in 0..1 :
  LET s == {i \in (Alive(k) + 1)..N : At1(i).ctx = k /\ At1(i).op \in Bins /\ vAns[i].ok}
      last == IF s = {} THEN <<>> ELSE vAns[CHOOSE i \in s : \A j \in s : j <= i].out
  IN last \in vCtxs[k].bin /\ vCtxs[k].bin \subseteq {last, <<>>}
\* the ideal answers are allowed ones, and the last one is the same whatever happened to others
Lawful == N > 0 => LET call == At1(N) IN
  /\ (call.op \in {"action", "table"} \cup Bins) =>
       vAns[N] = Ideal([abis |-> IF InForce(call.ctx, call.contract).ok THEN (call.contract :> InForce(call.ctx, call.contract)) ELSE <<>>, bin |-> {<<>>}], call, NoLoad)
=============================================================================
