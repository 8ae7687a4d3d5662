------------------------------ MODULE MC_Convert ------------------------------
(***************************************************************************)
(* A record that is migrated from version to version of its type.  What is   *)
(* left of the record it started as is kept apart, as a set of paths (names   *)
(* of members, positions, what is there): a step loses exactly the paths the  *)
(* next version has no member for, and nothing else ever changes.  Checked     *)
(* against the conversion, which knows nothing of paths; every step is also    *)
(* replayed on the code.                                                      *)
(***************************************************************************)
EXTENDS Static, Json, IOUtils, TLC
CONSTANT Hops
CSetup == TLCEval(JsonDeserialize(IOEnv.SETUP))
CEnv == TLCEval([x \in {CSetup.env[i].x : i \in 1..Len(CSetup.env)} |-> CSetup.env[CHOOSE i \in 1..Len(CSetup.env) : CSetup.env[i].x = x].e])
Rel == TLCEval({<<CSetup.rel[i][1], CSetup.rel[i][2]>> : i \in 1..Len(CSetup.rel)})
Vers == TLCEval({r[1] : r \in Rel})

\* --- some values of every type: each member in turn takes all of its values ------------
B2(a, b) == Sc("bytes", VarU32(b) \o [i \in 1..b |-> (a * i) % 256])
RECURSIVE Some(_)
Star(ts) == LET vals == [i \in 1..Len(ts) |-> Some(ts[i])] IN
  {[i \in 1..Len(ts) |-> IF i = j THEN vals[i][m] ELSE vals[i][Len(vals[i])]] : <<j, m>> \in {<<a, b>> \in (1..Len(ts)) \X (1..5) : b <= Len(vals[a])}}
Some(t) ==
  LET y == Ent(CEnv, t) IN
  CASE y.k = "builtin" -> (
         CASE y.n = "uint32" -> <<Sc("uint32", Zero(4)), Sc("uint32", <<255, 255, 255, 255>>), Sc("uint32", <<4, 3, 2, 1>>)>>
           [] y.n = "varuint32" -> <<Sc("varuint32", <<0>>), Sc("varuint32", <<255, 255, 255, 255, 15>>), Sc("varuint32", <<172, 2>>)>>
           [] y.n = "string" -> <<Sc("string", <<0>>), Sc("string", <<2, 97, 0>>)>>
           [] y.n = "bytes" -> <<B2(0, 0), B2(129, 3)>>
           [] OTHER -> <<Sc(y.n, Zero(Width[y.n])), Sc(y.n, [i \in 1..Width[y.n] |-> 130 + i])>>)
    [] y.k = "optional" -> <<Nil>> \o LET s == Some(y.of) IN (IF Len(s) > 1 THEN <<SomeOf(s[1])>> ELSE <<>>) \o <<SomeOf(s[Len(s)])>>
    [] y.k = "array" -> LET s == Some(y.of) arr(a) == [k |-> "arr", a |-> a] IN <<arr(<<>>), arr(<<s[Len(s)]>>), arr(<<s[1], s[Len(s)]>>)>>
    [] y.k = "variant" -> Flat([i \in 1..Len(y.f) |-> LET s == Some(y.f[i].t) IN <<[k |-> "var", i |-> i, v |-> s[1]], [k |-> "var", i |-> i, v |-> s[Len(s)]]>>])
    [] y.k = "struct" -> LET ts == [i \in 1..Len(y.f) |-> y.f[i].t] full == [i \in 1..Len(ts) |-> Some(ts[i])[Len(Some(ts[i]))]]
                         IN SetToSeq({[k |-> "obj", f |-> x] : x \in Star(ts) \ {full}}) \o <<[k |-> "obj", f |-> full]>>
SomeT == TLCEval([t \in Vers |-> Some(t)])
Origins == TLCEval({<<t, SomeT[t][i]>> : <<t, i>> \in {<<a, b>> \in Vers \X (1..40) : b <= Len(SomeT[a])}})

\* --- paths --------------------------------------------------------------------------------
\* (steps are the bytes of a name, or these)
LenAt == <<-2>>
MayAt == <<-3>>
InAt == <<-4>>
Under(n, S) == {<<<<n>> \o p[1], p[2]>> : p \in S}
Merge(S) == UNION S
RECURSIVE Leaves(_, _)
Leaves(t, v) ==
  LET y == Ent(CEnv, t) IN
  CASE y.k = "builtin" -> IF y.n = "varuint32" THEN {<<<<>>, Dec32(v.b, 1).v>>} ELSE {<<<<>>, IF y.n = "bytes" THEN VarBytes(v.b, 1, 5, 4).b ELSE v.b>>}
    [] y.k = "array" /\ Ent(CEnv, y.of).k = "builtin" /\ y.of = <<99, 104, 114>> -> {<<<<>>, Flat([i \in 1..Len(v.a) |-> v.a[i].b])>>}  \* bytes
    [] y.k = "array" /\ y.of # <<99, 104, 114>> -> {<<<<LenAt>>, <<Len(v.a)>>>>} \cup Merge({Under(<<-1, i>>, Leaves(y.of, v.a[i])) : i \in 1..Len(v.a)})
    [] y.k = "optional" -> IF v.k = "nil" THEN {<<<<MayAt>>, <<0>>>>} ELSE {<<<<MayAt>>, <<1>>>>} \cup Under(InAt, Leaves(y.of, v.v))
    [] y.k = "variant" -> Leaves(y.f[v.i].t, v.v)     \* related types: whichever it is, it has no name of its own
    [] y.k = "struct" -> Merge({Under(y.f[i].n, Leaves(y.f[i].t, v.f[i])) : i \in 1..Len(y.f)})
\* whether a version has a member for the path
RECURSIVE Has(_, _)
Has(t, p) ==
  LET y == Ent(CEnv, t) IN
  CASE y.k = "struct" -> \E i \in 1..Len(y.f) : y.f[i].n = p[1] /\ Has(y.f[i].t, Tail(p))
    [] y.k \in {"array", "optional"} /\ Len(p) > 0 -> p[1] \in {LenAt, MayAt} \/ Has(y.of, Tail(p))
    [] OTHER -> TRUE
IsBlank(x) == \A i \in 1..Len(x) : x[i] = 0

VARIABLES vVer, vRec, vLeft, vHop, vFrom
vars == <<vVer, vRec, vLeft, vHop, vFrom>>
Init == \E o \in Origins : /\ vVer = o[1] /\ vRec = o[2] /\ vLeft = Leaves(o[1], o[2]) /\ vHop = 0 /\ vFrom = <<>>
Migrate(d) ==
  LET new == Conv(CEnv, vVer, d, vRec, Default(CEnv, d), FALSE) IN
  /\ vHop < Hops /\ <<vVer, d>> \in Rel
  /\ vVer' = d /\ vRec' = new /\ vLeft' = {p \in vLeft : Has(d, p[1])} /\ vHop' = vHop + 1 /\ vFrom' = <<vVer, vRec>>
  /\ PrintT("CASE " \o ToJson([s |-> vVer, d |-> d, v |-> Wire(vRec)]))
Next == \E d \in Vers \cup {r[2] : r \in Rel} : Migrate(d)
Spec == Init /\ [][Next]_vars
\* --- what holds -----------------------------------------------------------------------------
Here == Leaves(vVer, vRec)
NothingLost == vLeft \subseteq Here
NothingMade == \A p \in Here \ vLeft : IsBlank(p[2])
\* a type related both ways: there and back
Back == (vHop > 0 /\ <<vVer, vFrom[1]>> \in Rel) =>
  LET home == Conv(CEnv, vVer, vFrom[1], vRec, vFrom[2], TRUE) again == Conv(CEnv, vVer, vFrom[1], vRec, Default(CEnv, vFrom[1]), FALSE) IN
  /\ \A p \in Leaves(vFrom[1], again) : p \in Leaves(vFrom[1], vFrom[2]) \/ IsBlank(p[2])
  \* a destination that is met again is left as it was, but for what is in optionals
  /\ \A p \in Leaves(vFrom[1], home) : p \in Leaves(vFrom[1], vFrom[2]) \/ (IsBlank(p[2]) /\ \E i \in 1..Len(p[1]) : p[1][i] = InAt)
Same == \A t \in {vVer} : Conv(CEnv, t, t, vRec, Default(CEnv, t), FALSE) = vRec
=============================================================================
