------------------------------- MODULE MC_Bin ---------------------------------
(* Every byte string of up to MaxLen bytes over a small alphabet, for every root *)
(* type of a small ABI, decoded by the machine.                                 *)
EXTENDS Machines, Json, IOUtils
CONSTANT MaxLen
Setup == JsonDeserialize(IOEnv.SETUP)
Env == TLCEval(Meaning(AbiOfJson(Setup.abi).d).env)
AllEnv == TLCEval(FoldLeft(LAMBDA env, t : Query(env, t).env, Env, Setup.roots))
Roots == {Setup.roots[i] : i \in 1..Len(Setup.roots)}
Alpha == {Setup.bytes[i] : i \in 1..Len(Setup.bytes)}
VARIABLES vRoot, vS, vMach
vars == <<vRoot, vS, vMach>>
T == Query(AllEnv, vRoot).n
Init == vRoot \in Roots /\ vS \in UNION {[1..n -> Alpha] : n \in 0..MaxLen} /\ vMach = BInit(Query(AllEnv, vRoot).n)
Next == vMach.st \in {"start", "run"} /\ vMach' = BStep(AllEnv, vS, vMach) /\ UNCHANGED <<vRoot, vS>>
Emit == IF vMach'.st \in {"done", "fail"} THEN PrintT("CASE " \o ToJson([root |-> vRoot, s |-> vS, ok |-> vMach'.st = "done"])) ELSE TRUE
Spec == Init /\ [][Next /\ Emit]_vars
Dec1 == FromWire(AllEnv, T, vS)
MachineBin == vMach.st \in {"done", "fail"} =>
  /\ (vMach.st = "done") = Dec1.ok
  /\ Dec1.ok => vMach.out = JsonOf(AllEnv, T, Dec1.v)
\* never behind the end, never nested deeper than allowed
Bounded == vMach.i <= Len(vS) + 1 /\ Len(vMach.stack) <= MaxOpen + 1
\* the canonical encoding decodes to itself through JSON
Round == Dec1.ok => LET r == FromOrdered(AllEnv, T, JsonOf(AllEnv, T, Dec1.v)) IN r.ok /\ Wire(r.v) = Wire(Dec1.v) /\ FromWire(AllEnv, T, Wire(r.v)).v = Dec1.v
=============================================================================
