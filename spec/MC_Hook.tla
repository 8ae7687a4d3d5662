------------------------------- MODULE MC_Hook ---------------------------------
(* The machines of Machines with a hook of the caller's: it is called before every *)
(* visit of a container and may stop the conversion there.  However a value is     *)
(* converted, between two calls no more than one value is worked on, there are at  *)
(* least as many calls as there are values inside of containers, a hook that does  *)
(* not stop it changes nothing, and nothing follows once it does.                   *)
EXTENDS Machines, Json, IOUtils
CONSTANT MaxLen
Setup == JsonDeserialize(IOEnv.SETUP)
Env == TLCEval(Meaning(AbiOfJson(Setup.abi).d).env)
AllEnv == TLCEval(FoldLeft(LAMBDA env, t : Query(env, t).env, Env, Setup.roots))
Roots == {Setup.roots[i] : i \in 1..Len(Setup.roots)}
Alpha == {Setup.bytes[i] : i \in 1..Len(Setup.bytes)}
VARIABLES vRoot, vS, vWay, vMach, vCalls, vDoc
vars == <<vRoot, vS, vWay, vMach, vCalls, vDoc>>
T == Query(AllEnv, vRoot).n
Of(root, s) == FromWire(AllEnv, Query(AllEnv, root).n, s)
Docs(root, s) == LET r == Of(root, s) IN IF r.ok THEN JsonOf(AllEnv, Query(AllEnv, root).n, r.v) ELSE <<>>
Init == /\ vRoot \in Roots /\ vS \in UNION {[1..n -> Alpha] : n \in 0..MaxLen} /\ vCalls = 0 /\ vDoc = Docs(vRoot, vS)
        /\ vWay \in {"bin", "json"} /\ (vWay = "json" => vDoc # <<>>)
        /\ vMach = IF vWay = "bin" THEN BInit(Query(AllEnv, vRoot).n) ELSE RInit(AllEnv, Query(AllEnv, vRoot).n, vDoc)
OneVisit == IF vWay = "bin" THEN BStep(AllEnv, vS, vMach) ELSE RStep(AllEnv, vDoc, vMach)
Begin == vMach.st = "start" /\ vMach' = OneVisit /\ UNCHANGED vCalls
Visit == vMach.st = "run" /\ vMach' = OneVisit /\ vCalls' = vCalls + 1
Stop == vMach.st = "run" /\ vMach' = [vMach EXCEPT !.st = "stopped"] /\ vCalls' = vCalls + 1
Next == (Begin \/ Visit \/ Stop) /\ UNCHANGED <<vRoot, vS, vWay, vDoc>>
Emit == IF vMach'.st \in {"done", "fail"} /\ vWay = "bin" THEN PrintT("CASE " \o ToJson([root |-> vRoot, s |-> vS, ok |-> vMach'.st = "done", n |-> vCalls'])) ELSE TRUE
Spec == Init /\ [][Next /\ Emit]_vars
Enough == vMach.st = "done" => vCalls >= Inside(Of(vRoot, vS).v)
Throughout == vMach.st \in {"run", "stopped"} => IF vWay = "bin" THEN Len(vMach.out) <= 2 * vCalls + 1 /\ vMach.i <= 1 + (vCalls + 1) * (MaxLeaf(IF Of(vRoot, vS).ok THEN Of(vRoot, vS).v ELSE [k |-> "sc", n |-> "", b |-> vS]) + Gap)
              ELSE Len(vMach.stack) <= vCalls + 1
Changes == vMach.st \in {"done", "fail"} => IF vWay = "json" THEN vMach.st = "done" /\ vMach.out = Wire(Of(vRoot, vS).v) ELSE (vMach.st = "done") = Of(vRoot, vS).ok
Ended == [][vMach.st \notin {"stopped", "done", "fail"}]_vars
=============================================================================
