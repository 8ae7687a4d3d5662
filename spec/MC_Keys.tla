-------------------------------- MODULE MC_Keys --------------------------------
(***************************************************************************)
(* Every pair of small values of a list of types (IOEnv.SETUP): the keys of  *)
(* the specification sort like the values and none is a prefix of another.   *)
(***************************************************************************)
EXTENDS Static, Json, IOUtils
CONSTANT MaxLen
KSetup == TLCEval(JsonDeserialize(IOEnv.SETUP))
KList == KSetup.env
KEnv == TLCEval([x \in {KList[i].x : i \in 1..Len(KList)} |-> KList[CHOOSE i \in 1..Len(KList) : KList[i].x = x].e])
Roots == {KSetup.roots[i] : i \in 1..Len(KSetup.roots)}
Signed8(m) == {Zero(m), [Zero(m) EXCEPT ![1] = 1], [i \in 1..m |-> 255], [Zero(m) EXCEPT ![m] = 128], [i \in 1..m |-> IF i = m THEN 127 ELSE 255]}
Texts(a, n) == UNION {[1..k -> a] : k \in 0..n}
SizedV1(s) == VarU32(Len(s)) \o s
ScalarU(n) ==
  CASE n = "bool" -> {<<0>>, <<1>>}
    [] n \in {"int8", "uint8"} -> {<<0>>, <<1>>, <<127>>, <<128>>, <<255>>}
    [] n = "string" -> {SizedV1(s) : s \in Texts({0, 1, 255}, MaxLen)}
    [] n = "bytes" -> {SizedV1(s) : s \in Texts({0, 127, 128, 129}, MaxLen)}
    [] n = "varuint32" -> {VarU32(x) : x \in {0, 1, 127, 128, 255, 16383, 16384, 2097151, 2097152, 268435455, 268435456}} \cup {<<255, 255, 255, 255, 15>>}
    [] n = "float32" -> {<<0, 0, 0, 0>>, <<0, 0, 0, 128>>, <<1, 0, 0, 0>>, <<1, 0, 0, 128>>, <<0, 0, 128, 63>>, <<0, 0, 128, 191>>, <<0, 0, 128, 127>>, <<0, 0, 128, 255>>, <<255, 255, 127, 127>>, <<0, 1, 0, 0>>}
    [] OTHER -> Signed8(Width[n])
RECURSIVE Universe(_), Fields(_, _), SeqsOf(_, _)
SeqsOf(u, n) == IF n = 0 THEN {<<>>} ELSE LET s == SeqsOf(u, n - 1) IN s \cup {Append(x, v) : x \in {y \in s : Len(y) = n - 1}, v \in u}
Fields(fs, j) == IF j > Len(fs) THEN {<<>>} ELSE LET rest == Fields(fs, j + 1) IN {<<v>> \o x : v \in Universe(fs[j].t), x \in rest}
Universe(t) ==
  LET y == Ent(KEnv, t) IN
  CASE y.k \in {"builtin", "named"} -> {Sc(y.n, b) : b \in ScalarU(y.n)}
    [] y.k = "optional" -> {Nil} \cup {SomeOf(v) : v \in Universe(y.of)}
    [] y.k \in {"array", "list", "set", "map"} -> {[k |-> "arr", a |-> Collect(y.k, s)] : s \in SeqsOf(Universe(y.of), MaxLen)}
    [] y.k = "variant" -> UNION {{[k |-> "var", i |-> i, v |-> v] : v \in Universe(y.f[i].t)} : i \in 1..Len(y.f)}
    [] y.k \in {"struct", "tuple", "pair"} -> {[k |-> "obj", f |-> x] : x \in Fields(y.f, 1)}
    [] y.k = "stdarray" -> {[k |-> "obj", f |-> x] : x \in {z \in SeqsOf(Universe(y.of), y.n) : Len(z) = y.n}}
VARIABLES vT, vA, vB
vars == <<vT, vA, vB>>
Init == vT \in Roots /\ vA \in Universe(vT) /\ vB = Nil /\ PrintT("CASE " \o ToJson([t |-> vT, w |-> Wire(vA)]))
Next == vB = Nil /\ vB' \in Universe(vT) /\ UNCHANGED <<vT, vA>>
Spec == Init /\ [][Next]_vars
\* keys sort like values; none is the beginning of another
Monotone == vB # Nil => KeyOrder(CmpV(vA, vB), KeyV(KEnv, vT, vA), KeyV(KEnv, vT, vB))
\* equal in the order: the same bytes, up to the sign of zero
Same == vB # Nil => ((CmpV(vA, vB) = 0) = (KeyV(KEnv, vT, vA) = KeyV(KEnv, vT, vB)))
Anti == vB # Nil => CmpV(vA, vB) = 0 - CmpV(vB, vA)
=============================================================================
