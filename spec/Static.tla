------------------------------- MODULE Static --------------------------------
(***************************************************************************)
(* C++ types by themselves (no ABI): containers, reflected structs.         *)
(* JSON members of a struct come in any order, unknown ones are skipped,    *)
(* missing ones keep the default.  Nothing limits nesting.                  *)
(***************************************************************************)
EXTENDS Order

KeyWidth == TLCEval([n \in DOMAIN KeyFam |-> 1 + KeyBytes(n)])
DefScalar(n) == IF n \in DOMAIN Width THEN Zero(Width[n]) ELSE IF n \in DOMAIN KeyWidth THEN Zero(KeyWidth[n]) ELSE <<0>>
RECURSIVE Default(_, _)
Default(env, t) ==
  LET y == Ent(env, t) IN
  CASE y.k = "builtin" -> Sc(y.n, DefScalar(y.n))
    [] y.k = "named" -> Sc(y.n, DefScalar(y.n))
    [] y.k = "optional" -> Nil
    [] y.k = "tail" -> Default(env, y.of)
    [] y.k \in {"array", "list", "set", "map"} -> [k |-> "arr", a |-> <<>>]
    [] y.k = "variant" -> [k |-> "var", i |-> 1, v |-> Default(env, y.f[1].t)]
    [] y.k \in {"struct", "tuple", "pair"} -> [k |-> "obj", f |-> [i \in 1..Len(y.f) |-> Default(env, y.f[i].t)]]
    [] y.k = "stdarray" -> [k |-> "obj", f |-> [i \in 1..y.n |-> Default(env, y.of)]]
    [] y.k = "carray" -> [k |-> "arr", a |-> [i \in 1..y.n |-> Default(env, y.of)]]
    [] y.k = "opaque" -> Sc("bytes", <<0>>)

\* --- sets and maps keep one element per key, in order ----------------------------
KeyPart(kind, v) == IF kind = "map" THEN v.f[1] ELSE v
RECURSIVE PutInto(_, _, _, _)
PutInto(kind, a, v, i) ==
  IF i > Len(a) THEN Append(a, v)
  ELSE LET c == CmpV(KeyPart(kind, v), KeyPart(kind, a[i])) IN
       IF c = 0 THEN a ELSE IF c < 0 THEN Take(a, i - 1) \o <<v>> \o Drop(a, i - 1) ELSE PutInto(kind, a, v, i + 1)
Collect(kind, a) == IF kind \in {"set", "map"} THEN FoldLeft(LAMBDA acc, v : PutInto(kind, acc, v, 1), <<>>, a) ELSE a

\* --- one type to a related one -----------------------------------------------------
(* v of type s put into an object of type d that holds old.  Members meet by name;    *)
(* those only the destination has keep what they hold, those only the source has are   *)
(* dropped.  keep: elements already in a destination array are reused in place.         *)
RECURSIVE Conv(_, _, _, _, _, _)
Conv(env, s, d, v, old, keep) ==
  LET x == Ent(env, s) y == Ent(env, d) IN
  CASE s = d -> v
    [] s # d /\ x.k = "variant" -> Conv(env, x.f[v.i].t, d, v.v, old, keep)
    [] x.k = "array" /\ y.k = "array" /\ s # d ->
         [k |-> "arr", a |-> [i \in 1..Len(v.a) |-> Conv(env, x.of, y.of, v.a[i], IF keep /\ i <= Len(old.a) THEN old.a[i] ELSE Default(env, y.of), keep)]]
    [] x.k = "optional" /\ y.k = "optional" /\ s # d -> IF v.k = "nil" THEN Nil ELSE SomeOf(Conv(env, x.of, y.of, v.v, Default(env, y.of), keep))
    [] x.k = "builtin" /\ s # d ->
         IF x.n = "varuint32" THEN Sc("uint32", Dec32(v.b, 1).v)
         ELSE [k |-> "arr", a |-> LET b == VarBytes(v.b, 1, 5, 4).b IN [i \in 1..Len(b) |-> Sc("int8", <<b[i]>>)]]
    [] x.k = "struct" /\ s # d ->
         [k |-> "obj", f |-> [j \in 1..Len(y.f) |-> LET i == AltIndex(x.f, y.f[j].n) IN
            IF i = 0 THEN old.f[j] ELSE Conv(env, x.f[i].t, y.f[j].t, v.f[i], old.f[j], keep)]]

\* --- binary -----------------------------------------------------------------------
RECURSIVE StaticDec(_, _, _, _), SDFields(_, _, _, _, _, _), SDMany(_, _, _, _, _, _)
SDMany(env, t, s, i, n, acc) ==
  IF n = 0 THEN V(acc, i)
  ELSE LET r == StaticDec(env, t, s, i) IN IF ~r.ok THEN NoT ELSE SDMany(env, t, s, r.next, n - 1, Append(acc, r.v))
SDFields(env, fs, s, i, j, acc) ==
  IF j > Len(fs) THEN V([k |-> "obj", f |-> acc], i)
  ELSE LET r == StaticDec(env, fs[j].t, s, i) IN IF ~r.ok THEN NoT ELSE SDFields(env, fs, s, r.next, j + 1, Append(acc, r.v))
StaticDec(env, t, s, i) ==
  LET y == Ent(env, t) IN
  CASE y.k \in {"builtin", "named"} -> LET r == ScalarOut(y.n, s, i) IN IF r.ok THEN V(Sc(y.n, r.b), r.next) ELSE NoT
    [] y.k = "optional" -> IF i > Len(s) THEN NoT ELSE IF s[i] = 0 THEN V(Nil, i + 1) ELSE Lift(StaticDec(env, y.of, s, i + 1), SomeOf)
    [] y.k = "tail" -> IF i > Len(s) THEN V(Default(env, y.of), i) ELSE StaticDec(env, y.of, s, i)
    [] y.k \in {"array", "list", "set", "map"} ->
         \* vectors of arithmetic types have a 64 bit count
         LET wide == y.k = "array" /\ env[y.of].k = "builtin" /\ env[y.of].n \in (DOMAIN Width \ {"float128", "time_point", "time_point_sec", "block_timestamp_type", "name", "checksum160", "checksum256", "checksum512", "symbol", "symbol_code", "asset"})
             c == IF wide THEN Dec64(s, i) ELSE Dec32(s, i) IN
         IF ~c.ok THEN NoT ELSE IF ~FitsSmall(c.v) THEN NoT
         ELSE LET r == SDMany(env, y.of, s, c.next, Small(c.v), <<>>) IN
              IF ~r.ok THEN NoT ELSE V([k |-> "arr", a |-> Collect(y.k, r.v)], r.next)
    [] y.k = "carray" -> LET c == Dec32(s, i) IN
         IF ~c.ok THEN NoT ELSE IF c.v # NumW(y.n, 4) THEN NoT
         ELSE LET r == SDMany(env, y.of, s, c.next, y.n, <<>>) IN IF r.ok THEN V([k |-> "arr", a |-> r.v], r.next) ELSE NoT
    [] y.k = "variant" -> LET c == Dec32(s, i) IN
         IF ~c.ok THEN NoT ELSE IF ~FitsSmall(c.v) THEN NoT ELSE IF Small(c.v) >= Len(y.f) THEN NoT
         ELSE LET x == Small(c.v) + 1 IN Lift(StaticDec(env, y.f[x].t, s, c.next), LAMBDA v : [k |-> "var", i |-> x, v |-> v])
    [] y.k = "struct" /\ "as" \in DOMAIN y -> \* travels as another type
         LET r == StaticDec(env, y.as, s, i) IN IF r.ok THEN V(Conv(env, y.as, t, r.v, Default(env, t), FALSE), r.next) ELSE NoT
    [] y.k \in {"struct", "tuple", "pair"} /\ "as" \notin DOMAIN y -> SDFields(env, y.f, s, i, 1, <<>>)
    [] y.k = "stdarray" -> LET r == SDMany(env, y.of, s, i, y.n, <<>>) IN IF r.ok THEN V([k |-> "obj", f |-> r.v], r.next) ELSE NoT
    [] y.k = "opaque" -> LET r == VarBytes(s, i, 10, 8) IN IF r.ok THEN V(Sc("bytes", SizedV(r.b)), r.next) ELSE NoT

\* --- JSON -------------------------------------------------------------------------
RECURSIVE SJ(_, _, _, _, _), SJMany(_, _, _, _, _), SJMembers(_, _, _, _, _)
SJMany(env, t, e, i, acc) ==
  IF e[i].t = "]" THEN V([k |-> "arr", a |-> acc], i + 1)
  ELSE LET r == SJ(env, t, e, i, Default(env, t)) IN IF ~r.ok THEN NoT ELSE SJMany(env, t, e, r.next, Append(acc, r.v))
SJMembers(env, fs, e, i, acc) ==
  IF e[i].t = "}" THEN V([k |-> "obj", f |-> acc], i + 1)
  ELSE LET j == AltIndex(fs, e[i].v) IN
       IF j = 0 THEN SJMembers(env, fs, e, ValueEnd(e, i + 1), acc)
       ELSE LET r == SJ(env, fs[j].t, e, i + 1, acc[j]) IN IF ~r.ok THEN NoT ELSE SJMembers(env, fs, e, r.next, [acc EXCEPT ![j] = r.v])
SJ(env, t, e, i, old) ==
  LET y == Ent(env, t) IN
  CASE y.k = "builtin" -> LET r == ScalarIn(y.n, e[i]) IN IF r.ok THEN V(Sc(y.n, r.b), i + 1) ELSE NoT
    [] y.k = "optional" -> IF e[i].t = "null" THEN V(Nil, i + 1) ELSE Lift(SJ(env, y.of, e, i, Default(env, y.of)), SomeOf)
    [] y.k = "tail" -> SJ(env, y.of, e, i, old)
    [] y.k = "array" -> IF e[i].t # "[" THEN NoT ELSE SJMany(env, y.of, e, i + 1, <<>>)
    [] y.k = "variant" ->
         IF e[i].t # "[" THEN NoT ELSE IF e[i + 1].t \notin {"str", "num"} THEN NoT
         ELSE LET x == AltIndex(y.f, e[i + 1].v) IN
           IF x = 0 THEN NoT ELSE IF e[i + 2].t = "]" THEN NoT
           ELSE LET r == SJ(env, y.f[x].t, e, i + 2, Default(env, y.f[x].t)) IN
             IF ~r.ok THEN NoT ELSE IF e[r.next].t # "]" THEN NoT ELSE V([k |-> "var", i |-> x, v |-> r.v], r.next + 1)
    [] y.k = "opaque" -> LET r == ScalarIn("bytes", e[i]) IN IF r.ok THEN V(Sc("bytes", r.b), i + 1) ELSE NoT
    [] y.k = "struct" -> IF e[i].t # "{" THEN NoT ELSE SJMembers(env, y.f, e, i + 1, old.f)
    [] OTHER -> NoT
FromStatic(env, t, e) == SJ(env, t, e, 1, Default(env, t))
=============================================================================
