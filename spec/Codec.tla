------------------------------- MODULE Codec --------------------------------
(***************************************************************************)
(* What a type means: its canonical binary and its JSON.                    *)
(*                                                                         *)
(* An environment maps type names (byte strings) to entries                *)
(*   [k |-> "builtin", n]                a scalar                           *)
(*   [k |-> "optional" / "array" / "extension", of]                         *)
(*   [k |-> "struct" / "variant", f]     f: sequence of [n, t]              *)
(*   [k |-> "alias", of]                                                    *)
(* t and of are names of entries that are not aliases.                      *)
(* A value is a tree: [k |-> "sc", n, b], [k |-> "nil"], [k |-> "some", v], *)
(* [k |-> "arr", a], [k |-> "var", i, v], [k |-> "obj", f] with the trees   *)
(* of the fields that are present (all, or a prefix).                       *)
(***************************************************************************)
EXTENDS Scalars

MaxOpen == 128
Ent(env, n) == LET e == env[n] IN IF e.k = "alias" THEN env[e.of] ELSE e
IsExt(env, n) == env[n].k = "extension"

\* ------------------------------------------------------------------ tree -> wire
RECURSIVE Wire(_)
Wire(v) ==
  CASE v.k = "sc" -> v.b
    [] v.k = "nil" -> <<0>>
    [] v.k = "some" -> <<1>> \o Wire(v.v)
    [] v.k = "arr" -> VarU32(Len(v.a)) \o Flat([i \in 1..Len(v.a) |-> Wire(v.a[i])])
    [] v.k = "var" -> VarU32(v.i - 1) \o Wire(v.v)
    [] v.k = "obj" -> Flat([i \in 1..Len(v.f) |-> Wire(v.f[i])])

\* ------------------------------------------------------------------ tree -> JSON events
RECURSIVE JsonOf(_, _, _)
JsonOf(env, t, v) ==
  LET y == Ent(env, t) IN
  CASE y.k = "builtin" -> <<ScalarEv(y.n, v.b)>>
    [] y.k = "optional" -> IF v.k = "nil" THEN <<Ev("null")>> ELSE JsonOf(env, y.of, v.v)
    [] y.k \in {"extension", "tail"} -> JsonOf(env, y.of, v)
    [] y.k = "opaque" -> <<ScalarEv("bytes", v.b)>>
    [] y.k = "named" -> IF v.b[1] < Len(y.f) THEN <<EvS(y.f[v.b[1] + 1])>> ELSE <<Ev("none")>>  \* a number without a name has no JSON
    [] y.k = "array" -> <<Ev("[")>> \o Flat([i \in 1..Len(v.a) |-> JsonOf(env, y.of, v.a[i])]) \o <<Ev("]")>>
    [] y.k = "variant" -> <<Ev("["), EvS(Sane(y.f[v.i].n))>> \o JsonOf(env, y.f[v.i].t, v.v) \o <<Ev("]")>>
    [] y.k = "struct" -> <<Ev("{")>> \o Flat([i \in 1..Len(v.f) |-> <<EvK(Sane(y.f[i].n))>> \o JsonOf(env, y.f[i].t, v.f[i])]) \o <<Ev("}")>>

\* ------------------------------------------------------------------ results
NoT == [ok |-> FALSE, v |-> [k |-> "nil"], next |-> 0]
V(v, next) == [ok |-> TRUE, v |-> v, next |-> next]
Lift(r, f(_)) == IF r.ok THEN V(f(r.v), r.next) ELSE r
Sc(n, b) == [k |-> "sc", n |-> n, b |-> b]
SomeOf(v) == [k |-> "some", v |-> v]
Nil == [k |-> "nil"]

\* all extensions from field j on
AllExt(env, fs, j) == \A x \in j..Len(fs) : IsExt(env, fs[x].t)

\* ------------------------------------------------------------------ wire -> tree
\* i: next byte; ext: may extensions be absent at the end; d: containers open around the value
RECURSIVE Dec(_, _, _, _, _, _), DecFields(_, _, _, _, _, _, _, _), DecMany(_, _, _, _, _, _, _)
DecMany(env, t, s, i, n, d, acc) ==
  IF n = 0 THEN V([k |-> "arr", a |-> acc], i)
  ELSE LET r == Dec(env, t, s, i, FALSE, d) IN IF ~r.ok THEN NoT ELSE DecMany(env, t, s, r.next, n - 1, d, Append(acc, r.v))
DecFields(env, fs, s, i, j, ext, d, acc) ==
  IF j > Len(fs) THEN V([k |-> "obj", f |-> acc], i)
  ELSE IF i > Len(s) /\ ext /\ IsExt(env, fs[j].t) THEN (IF AllExt(env, fs, j) THEN V([k |-> "obj", f |-> acc], i) ELSE NoT)
  ELSE LET r == Dec(env, fs[j].t, s, i, ext /\ j = Len(fs), d) IN IF ~r.ok THEN NoT ELSE DecFields(env, fs, s, r.next, j + 1, ext, d, Append(acc, r.v))
Dec(env, t, s, i, ext, d) ==
  LET y == Ent(env, t) IN
  CASE y.k = "builtin" -> LET r == ScalarOut(y.n, s, i) IN IF r.ok THEN V(Sc(y.n, r.b), r.next) ELSE NoT
    [] y.k = "optional" -> IF i > Len(s) THEN NoT ELSE IF s[i] = 0 THEN V(Nil, i + 1) ELSE Lift(Dec(env, y.of, s, i + 1, ext, d), SomeOf)
    [] y.k = "extension" -> Dec(env, y.of, s, i, ext, d)
    [] y.k = "array" -> LET c == Dec32(s, i) IN
         IF d >= MaxOpen \/ ~c.ok THEN NoT
         ELSE IF ~FitsSmall(c.v) THEN NoT \* more elements than any input has bytes (elements of no size: see C07)
         ELSE DecMany(env, y.of, s, c.next, Small(c.v), d + 1, <<>>)
    [] y.k = "variant" -> LET c == Dec32(s, i) IN
         IF d >= MaxOpen \/ ~c.ok THEN NoT
         ELSE IF ~FitsSmall(c.v) \/ Small(c.v) >= Len(y.f) THEN NoT
         ELSE LET x == Small(c.v) + 1 IN Lift(Dec(env, y.f[x].t, s, c.next, ext, d + 1), LAMBDA v : [k |-> "var", i |-> x, v |-> v])
    [] y.k = "struct" -> IF d >= MaxOpen THEN NoT ELSE DecFields(env, y.f, s, i, 1, ext, d + 1, <<>>)
\* a binary is valid iff it is one encoding and nothing else
FromWire(env, t, s) == LET r == Dec(env, t, s, 1, TRUE, 0) IN IF r.ok /\ r.next = Len(s) + 1 THEN r ELSE NoT

\* ------------------------------------------------------------------ JSON events -> tree, members in declared order
RECURSIVE Ord(_, _, _, _, _, _), OrdFields(_, _, _, _, _, _, _, _), OrdMany(_, _, _, _, _, _)
AltIndex(fs, x) == IF \E k \in 1..Len(fs) : fs[k].n = x THEN CHOOSE k \in 1..Len(fs) : fs[k].n = x /\ \A l \in 1..(k - 1) : fs[l].n # x ELSE 0
OrdMany(env, t, e, i, d, acc) ==
  IF e[i].t = "]" THEN V([k |-> "arr", a |-> acc], i + 1)
  ELSE LET r == Ord(env, t, e, i, FALSE, d) IN IF ~r.ok THEN NoT ELSE OrdMany(env, t, e, r.next, d, Append(acc, r.v))
OrdFields(env, fs, e, i, j, ext, d, acc) ==
  IF e[i].t = "}" THEN (IF j > Len(fs) \/ (ext /\ AllExt(env, fs, j)) THEN V([k |-> "obj", f |-> acc], i + 1) ELSE NoT)
  ELSE IF j > Len(fs) THEN NoT ELSE IF e[i].v # fs[j].n THEN NoT
  ELSE LET r == Ord(env, fs[j].t, e, i + 1, ext /\ j = Len(fs), d) IN IF ~r.ok THEN NoT ELSE OrdFields(env, fs, e, r.next, j + 1, ext, d, Append(acc, r.v))
Ord(env, t, e, i, ext, d) ==
  LET y == Ent(env, t) IN
  CASE y.k = "builtin" -> LET r == ScalarIn(y.n, e[i]) IN IF r.ok THEN V(Sc(y.n, r.b), i + 1) ELSE NoT
    [] y.k = "optional" -> IF e[i].t = "null" THEN V(Nil, i + 1) ELSE Lift(Ord(env, y.of, e, i, ext, d), SomeOf)
    [] y.k = "extension" -> Ord(env, y.of, e, i, ext, d)
    [] y.k = "array" -> IF d >= MaxOpen \/ e[i].t # "[" THEN NoT ELSE OrdMany(env, y.of, e, i + 1, d + 1, <<>>)
    [] y.k = "variant" ->
         IF d >= MaxOpen \/ e[i].t # "[" THEN NoT ELSE IF e[i + 1].t \notin {"str", "num"} THEN NoT
         ELSE LET x == AltIndex(y.f, e[i + 1].v) IN
           IF x = 0 THEN NoT ELSE IF e[i + 2].t = "]" THEN NoT
           ELSE LET r == Ord(env, y.f[x].t, e, i + 2, ext, d + 1) IN
             IF ~r.ok THEN NoT ELSE IF e[r.next].t # "]" THEN NoT ELSE V([k |-> "var", i |-> x, v |-> r.v], r.next + 1)
    [] y.k = "struct" -> IF d >= MaxOpen \/ e[i].t # "{" THEN NoT ELSE OrdFields(env, y.f, e, i + 1, 1, ext, d + 1, <<>>)
FromOrdered(env, t, e) == Ord(env, t, e, 1, TRUE, 0)

\* ------------------------------------------------------------------ JSON events -> tree, members found by name
\* the members of the object that opens at i: sequence of [n, i] (i: index of the value), and the index behind it
RECURSIVE MembersFrom(_, _, _)
MembersFrom(e, i, acc) == IF e[i].t = "}" THEN [m |-> acc, next |-> i + 1]
                          ELSE MembersFrom(e, ValueEnd(e, i + 1), Append(acc, [n |-> e[i].v, i |-> i + 1]))
\* where the value of member x is (the last one counts), 0 if there is none
MemberAt(m, x) == LET s == {k \in 1..Len(m) : m[k].n = x} IN IF s = {} THEN 0 ELSE m[CHOOSE k \in s : \A l \in s : l <= k].i
RECURSIVE Reo(_, _, _, _, _), ReoFields(_, _, _, _, _, _, _), ReoMany(_, _, _, _, _)
ReoMany(env, t, e, i, acc) ==
  IF e[i].t = "]" THEN V([k |-> "arr", a |-> acc], i + 1)
  ELSE LET r == Reo(env, t, e, i, FALSE) IN IF ~r.ok THEN NoT ELSE ReoMany(env, t, e, ValueEnd(e, i), Append(acc, r.v))
ReoFields(env, fs, e, m, j, ext, acc) ==
  IF j > Len(fs) THEN V([k |-> "obj", f |-> acc], 0)
  ELSE LET i == MemberAt(m, fs[j].n) IN
  IF i = 0 THEN (IF ext /\ AllExt(env, fs, j) /\ \A x \in j..Len(fs) : MemberAt(m, fs[x].n) = 0 THEN V([k |-> "obj", f |-> acc], 0) ELSE NoT)
  ELSE LET r == Reo(env, fs[j].t, e, i, ext /\ j = Len(fs)) IN IF ~r.ok THEN NoT ELSE ReoFields(env, fs, e, m, j + 1, ext, Append(acc, r.v))
Reo(env, t, e, i, ext) ==
  LET y == Ent(env, t) IN
  CASE y.k = "builtin" -> LET r == ScalarIn(y.n, e[i]) IN IF r.ok THEN V(Sc(y.n, r.b), i + 1) ELSE NoT
    [] y.k = "optional" -> IF e[i].t = "null" THEN V(Nil, i + 1) ELSE Lift(Reo(env, y.of, e, i, ext), SomeOf)
    [] y.k = "extension" -> Reo(env, y.of, e, i, ext)
    [] y.k = "array" -> IF e[i].t # "[" THEN NoT ELSE ReoMany(env, y.of, e, i + 1, <<>>)
    [] y.k = "variant" ->
         IF e[i].t # "[" THEN NoT ELSE IF e[i + 1].t \notin {"str", "num"} THEN NoT
         ELSE LET x == AltIndex(y.f, e[i + 1].v) IN
           IF x = 0 THEN NoT ELSE IF e[i + 2].t = "]" THEN NoT
           ELSE IF e[ValueEnd(e, i + 2)].t # "]" THEN NoT
           ELSE Lift(Reo(env, y.f[x].t, e, i + 2, ext), LAMBDA v : [k |-> "var", i |-> x, v |-> v])
    [] y.k = "struct" -> IF e[i].t # "{" THEN NoT ELSE LET mm == MembersFrom(e, i + 1, <<>>) IN ReoFields(env, y.f, e, mm.m, 1, ext, <<>>)
FromAnyOrder(env, t, e) == IF JsonDepth(e) > MaxOpen THEN NoT ELSE Reo(env, t, e, 1, TRUE)
\* exactly at the limit, the order-insensitive conversion may refuse
AtLimit(e) == JsonDepth(e) = MaxOpen
=============================================================================
