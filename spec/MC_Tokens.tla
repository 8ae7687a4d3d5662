------------------------------ MODULE MC_Tokens ------------------------------
(* Every sequence of calls on the texts: each token is taken exactly once and   *)
(* in order, a refused call changes nothing but that the token was looked at.   *)
EXTENDS Tokens, Json, IOUtils
CONSTANTS MaxOps
\* (the texts come from the harness)
TextsB == TLCEval(LET s == JsonDeserialize(IOEnv.SETUP) IN {s[i] : i \in 1..Len(s)})
EvOf == TLCEval([t \in TextsB |-> Events(t).ev])
VARIABLES vText, vReader, vOps, vTaken, vOk
vars == <<vText, vReader, vOps, vTaken, vOk>>
Init == vText \in TextsB /\ vReader = Start0 /\ vOps = <<>> /\ vTaken = <<>> /\ vOk = TRUE
Ask(o) ==
  /\ Len(vOps) < MaxOps
  /\ LET d == Do1(EvOf[vText], vReader, o) IN
       /\ vReader' = d.m /\ vOk' = d.ok
       /\ vTaken' = IF d.m.at > vReader.at THEN Append(vTaken, EvOf[vText][vReader.at]) ELSE vTaken
  /\ vOps' = Append(vOps, o)
  /\ UNCHANGED vText
Emit == IF Len(vOps') = MaxOps \/ (vOps' # <<>> /\ vOps'[Len(vOps')] = "E" /\ vOk') THEN PrintT("CASE " \o ToJson([t |-> vText, o |-> vOps'])) ELSE TRUE
Next == \E o \in ReaderOps : Ask(o) /\ Emit
Spec == Init /\ [][Next]_vars
E0 == EvOf[vText]
\* what was taken is what the text begins with
InOrder == vTaken = SubSeq(E0, 1, vReader.at - 1)
\* refused calls take nothing
Refused == [][~vOk' => vReader'.at = vReader.at]_vars
\* the end is the end, and only then
AtEnd == (vOps # <<>> /\ vOps[Len(vOps)] = "E") => (vOk <=> vTaken = E0)
\* a sequence of calls is the calls one after another
Same == vOps # <<>> => LET a == DoAll(E0, vOps) IN Len(a) = Len(vOps) /\ (a[Len(a)][1] = 1) = vOk
\* what looks is answered with the token that the right question then takes
Honest == vReader.at <= Len(E0) =>
  LET k == Kind(E0[vReader.at].t) IN
  \A o \in DOMAIN Wanted : LET d == Do1(E0, vReader, o) IN (d.m.at = vReader.at + 1) = (Wanted[o] = k) /\ (~d.ok => o \notin AsksIf)
=============================================================================
