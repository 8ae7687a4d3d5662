------------------------------- MODULE MC_Json --------------------------------
(* Every JSON document of up to MaxToks tokens over a small alphabet, for every *)
(* root type of a small ABI, fed to the ordered machine token by token; complete *)
(* documents also go to the machine that finds members by name.                 *)
EXTENDS Machines, Json, IOUtils
CONSTANTS MaxToks
\* (the ABI, the root types and the tokens come from the harness)
Setup == JsonDeserialize(IOEnv.SETUP)
Env == TLCEval(Meaning(AbiOfJson(Setup.abi).d).env)
Roots == {Setup.roots[i] : i \in 1..Len(Setup.roots)}
RootTarget(t) == Query(Env, t)
\* the environment including the root's own derived types
AllEnv == TLCEval(FoldLeft(LAMBDA env, t : Query(env, t).env, Env, Setup.roots))
Scal == {Setup.toks[i] : i \in 1..Len(Setup.toks)}
KeyToks == {EvK(Setup.keys[i]) : i \in 1..Len(Setup.keys)}
VARIABLES vRoot, vDoc, vOpen, vMach
vars == <<vRoot, vDoc, vOpen, vMach>>
\* what may follow: vOpen is a sequence of "{" (a key or }), ":" (a value behind a key), "[" 
Complete == vDoc # <<>> /\ vOpen = <<>>
AfterValue(o) == IF o = <<>> THEN o ELSE IF o[Len(o)] = ":" THEN Append(Pop(o), "{") ELSE o
Fits(tok) ==
  IF vDoc = <<>> THEN tok.t \notin {"}", "]", "key"}
  ELSE IF vOpen = <<>> THEN FALSE
  ELSE CASE Top(vOpen) = "{" -> tok.t \in {"key", "}"}
         [] Top(vOpen) = ":" -> tok.t \notin {"key", "}", "]"}
         [] Top(vOpen) = "[" -> tok.t \notin {"key", "}"}
OpenAfter(tok) ==
  CASE tok.t = "{" -> Append(vOpen, "{") [] tok.t = "[" -> Append(vOpen, "[")
    [] tok.t = "key" -> Append(Pop(vOpen), ":")
    [] tok.t \in {"}", "]"} -> AfterValue(Pop(vOpen))
    [] OTHER -> AfterValue(vOpen)
Init == vRoot \in Roots /\ vDoc = <<>> /\ vOpen = <<>> /\ vMach = OInit(RootTarget(vRoot).n)
Toks == Scal \cup KeyToks \cup {Ev("{"), Ev("}"), Ev("["), Ev("]")}
Next == \E tok \in Toks :
  /\ Len(vDoc) < MaxToks
  /\ Fits(tok)
  /\ Len(vDoc) + Len(vOpen) < MaxToks  \* it can still be completed
  \* once the ordered machine has failed, only what reordering could still make of it: members of the vOpen object, and its end
  /\ vMach.st = "fail" => tok.t \in {"}", "]", "key", "num"}
  /\ vDoc' = Append(vDoc, tok)
  /\ vOpen' = OpenAfter(tok)
  /\ vMach' = OStep(AllEnv, vMach, tok)
  /\ UNCHANGED vRoot
Emit == IF vDoc' # <<>> /\ vOpen' = <<>> THEN PrintT("CASE " \o ToJson([root |-> vRoot, doc |-> vDoc', o |-> vMach'.st = "done", a |-> FromAnyOrder(AllEnv, RootTarget(vRoot).n, vDoc').ok])) ELSE TRUE
Spec == Init /\ [][Next /\ Emit]_vars
T == RootTarget(vRoot).n
Ordered == FromOrdered(AllEnv, T, vDoc)
AnyOrder == FromAnyOrder(AllEnv, T, vDoc)
\* the machines compute the codec
MachineOrdered == Complete => /\ (vMach.st = "done") = Ordered.ok
                              /\ Ordered.ok => OResult(vMach) = Wire(Ordered.v)
MachineAnyOrder == Complete => LET m == RRun(AllEnv, vDoc, RInit(AllEnv, T, vDoc)) IN
                              /\ (m.st = "done") = AnyOrder.ok
                              /\ AnyOrder.ok => m.out = Wire(AnyOrder.v)
\* what the ordered conversion accepts the other one accepts, with the same bytes
Lax == Complete /\ Ordered.ok => AnyOrder.ok /\ AnyOrder.v = Ordered.v
\* the bytes decode to the value, and its JSON converts to it again
\* (a present extension without bytes cannot be told from an absent one)
Back == Complete /\ AnyOrder.ok =>
  LET w == Wire(AnyOrder.v) r == FromWire(AllEnv, T, w) j == JsonOf(AllEnv, T, AnyOrder.v) IN
  /\ r.ok /\ Wire(r.v) = w /\ (Setup.exact => r.v = AnyOrder.v)
  /\ FromOrdered(AllEnv, T, j).ok /\ FromOrdered(AllEnv, T, j).v = AnyOrder.v
=============================================================================
