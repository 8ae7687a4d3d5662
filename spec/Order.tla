-------------------------------- MODULE Order --------------------------------
(***************************************************************************)
(* The order of the values of every type, and database keys.  Values are    *)
(* trees as in Codec; besides the kinds there, C++ types have               *)
(*   "list" (vector-like container), "set", "map" (an "arr" of values),     *)
(*   "tuple", "pair", "stdarray" (an "obj" of values, nothing between),      *)
(*   "carray" (counted), "opaque", "tail", "enum".                           *)
(***************************************************************************)
EXTENDS Codec

Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
CmpInt(x, y) == IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0
SByte(x) == IF x >= 128 THEN x - 256 ELSE x
SLex(a, b) == Lex([i \in 1..Len(a) |-> SByte(a[i]) + 128], [i \in 1..Len(b) |-> SByte(b[i]) + 128])
\* IEEE numbers that are not NaN
FloatZero(b) == IsZero(Take(b, Len(b) - 1)) /\ b[Len(b)] % 128 = 0
Mag8(b) == [b EXCEPT ![Len(b)] = @ % 128]
CmpFloat(a, b) ==
  IF FloatZero(a) /\ FloatZero(b) THEN 0
  ELSE IF IsNeg(a) # IsNeg(b) THEN (IF IsNeg(a) THEN -1 ELSE 1)
  ELSE IF IsNeg(a) THEN Cmp(Mag8(b), Mag8(a)) ELSE Cmp(a, b)
IsNaNBits(b, f) == BitsValue(b, f).kind = "nan"
KeyBytes(n) == IF n = "public_key" THEN 33 ELSE IF n = "private_key" THEN 32 ELSE 65
CmpKey(n, a, b) == \* variants of arrays of signed chars; index 2: WebAuthn
  LET w == KeyBytes(n)
      ka == SubSeq(a, 2, w + 1) kb == SubSeq(b, 2, w + 1)
      ra == Drop(a, w + 1) rb == Drop(b, w + 1)
      first(r) == LET d == VarBytes(r, 1, 5, 4) IN d
  IN IF a[1] # b[1] THEN CmpInt(a[1], b[1])
     ELSE IF SLex(ka, kb) # 0 THEN SLex(ka, kb)
     ELSE IF a[1] # 2 THEN 0
     ELSE IF n = "public_key" THEN (IF ra[1] # rb[1] THEN CmpInt(ra[1], rb[1]) ELSE Lex(Payload(Tail(ra)), Payload(Tail(rb))))
     ELSE LET x == first(ra) y == first(rb) IN
          IF Lex(x.b, y.b) # 0 THEN Lex(x.b, y.b) ELSE Lex(Payload(Drop(ra, x.next - 1)), Payload(Drop(rb, y.next - 1)))
CmpScalar(n, a, b) ==
  CASE n = "varuint32" -> Cmp(Dec32(a, 1).v, Dec32(b, 1).v)
    [] n = "varint32" -> SCmp(UnZigZag(Dec32(a, 1).v), UnZigZag(Dec32(b, 1).v))
    [] n \in IntNames -> IF IntTypes[n].s THEN SCmp(a, b) ELSE Cmp(a, b)
    [] n \in {"float32", "float64"} -> CmpFloat(a, b)
    [] n = "time_point" -> SCmp(a, b)
    [] n \in DOMAIN FixedLen -> Lex(a, b)
    [] n = "bytes" -> SLex(Payload(a), Payload(b))
    [] n = "string" -> Lex(Payload(a), Payload(b))
    [] n \in DOMAIN KeyFam -> CmpKey(n, a, b)
    [] n = "asset" -> SCmp(Take(a, 8), Take(b, 8))   \* of one symbol
    [] OTHER -> Cmp(a, b)

RECURSIVE CmpV(_, _), CmpSeq(_, _, _)
CmpSeq(a, b, i) == IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1) ELSE IF i > Len(b) THEN 1
                   ELSE LET c == CmpV(a[i], b[i]) IN IF c # 0 THEN c ELSE CmpSeq(a, b, i + 1)
\* order of two values of the same type (-1, 0, 1)
CmpV(a, b) ==
  IF a.k # b.k THEN (IF a.k = "nil" THEN -1 ELSE 1)
  ELSE CASE a.k = "sc" -> CmpScalar(a.n, a.b, b.b)
         [] a.k = "nil" -> 0
         [] a.k = "some" -> CmpV(a.v, b.v)
         [] a.k = "arr" -> CmpSeq(a.a, b.a, 1)
         [] a.k = "obj" -> CmpSeq(a.f, b.f, 1)
         [] a.k = "var" -> IF a.i # b.i THEN CmpInt(a.i, b.i) ELSE CmpV(a.v, b.v)
RECURSIVE HasNaN(_)
HasNaN(v) == CASE v.k = "sc" -> (v.n = "float32" /\ IsNaNBits(v.b, Fmt32)) \/ (v.n = "float64" /\ IsNaNBits(v.b, Fmt64))
               [] v.k = "nil" -> FALSE
               [] v.k \in {"some", "var"} -> HasNaN(v.v)
               [] v.k = "arr" -> \E i \in 1..Len(v.a) : HasNaN(v.a[i])
               [] v.k = "obj" -> \E i \in 1..Len(v.f) : HasNaN(v.f[i])
\* assets of different symbols have no order
RECURSIVE Assets(_)
Assets(v) == CASE v.k = "sc" -> IF v.n = "asset" THEN {Drop(v.b, 8)} ELSE {}
               [] v.k = "nil" -> {}
               [] v.k \in {"some", "var"} -> Assets(v.v)
               [] v.k = "arr" -> UNION {Assets(v.a[i]) : i \in 1..Len(v.a)}
               [] v.k = "obj" -> UNION {Assets(v.f[i]) : i \in 1..Len(v.f)}

\* --- keys ---------------------------------------------------------------------
(* One way to make keys; Monotone below is what makes it a good one.            *)
Bias(be) == [be EXCEPT ![1] = (@ + 128) % 256]
FloatKey(b) == LET z == IF FloatZero(b) THEN Zero(Len(b)) ELSE b IN IF IsNeg(z) THEN Rev(Not8(z)) ELSE Bias(Rev(z))
StrKey(s) == Flat([i \in 1..Len(s) |-> IF s[i] = 0 THEN <<0, 1>> ELSE <<s[i]>>]) \o <<0, 0>>
\* elements of one byte need no marker; a zero byte is escaped
Elem1(k) == IF k = <<0>> THEN <<0, 1>> ELSE k
SCharsKey(s) == [i \in 1..Len(s) |-> (s[i] + 128) % 256]
VarKey(x) == \* variable length, big-endian
  LET n == IF CmpN(x, <<128>>) < 0 THEN 1 ELSE IF CmpN(x, <<0, 64>>) < 0 THEN 2 ELSE IF CmpN(x, <<0, 0, 32>>) < 0 THEN 3 ELSE IF CmpN(x, <<0, 0, 0, 16>>) < 0 THEN 4 ELSE 5
      be == Rev(Take(Ext(x, 5), n))
      lead == CASE n = 1 -> 0 [] n = 2 -> 128 [] n = 3 -> 192 [] n = 4 -> 224 [] n = 5 -> 240
  IN [be EXCEPT ![1] = @ + lead]
ScalarKey(n, b) ==
  CASE n = "varuint32" -> VarKey(Dec32(b, 1).v)
    [] n \in IntNames -> IF IntTypes[n].s THEN Bias(Rev(b)) ELSE Rev(b)
    [] n \in {"float32", "float64"} -> FloatKey(b)
    [] n = "time_point" -> Bias(Rev(b))
    [] n \in DOMAIN FixedLen -> b
    [] n = "bytes" -> Flat([i \in 1..Len(Payload(b)) |-> Elem1(<<(Payload(b)[i] + 128) % 256>>)]) \o <<0, 0>>
    [] n = "string" -> StrKey(Payload(b))
    [] n \in DOMAIN KeyFam -> LET w == KeyBytes(n) r == Drop(b, w + 1) IN
         <<b[1]>> \o SCharsKey(SubSeq(b, 2, w + 1)) \o
         (IF b[1] # 2 THEN <<>> ELSE IF n = "public_key" THEN <<r[1]>> \o StrKey(Payload(Tail(r)))
          ELSE LET x == VarBytes(r, 1, 5, 4) IN StrKey(x.b) \o StrKey(Payload(Drop(r, x.next - 1))))
    [] n = "asset" -> Bias(Rev(Take(b, 8))) \o Rev(Drop(b, 8))
    [] OTHER -> Rev(b)
OneByte(n) == n \in {"bool", "int8", "uint8"}
RECURSIVE KeyV(_, _, _)
\* the key of an element of a sequence or optional; "nil": the end
ElemKey(env, t, v) == LET y == Ent(env, t) k == KeyV(env, t, v) IN IF y.k = "builtin" /\ OneByte(y.n) THEN Elem1(k) ELSE <<1>> \o k
EndKey(env, t) == LET y == Ent(env, t) IN IF y.k = "builtin" /\ OneByte(y.n) THEN <<0, 0>> ELSE <<0>>
KeyV(env, t, v) ==
  LET y == Ent(env, t) IN
  CASE y.k = "builtin" -> ScalarKey(y.n, v.b)
    [] y.k = "optional" -> IF v.k = "nil" THEN EndKey(env, y.of) ELSE ElemKey(env, y.of, v.v)
    [] y.k \in {"array", "list", "set", "map"} -> Flat([i \in 1..Len(v.a) |-> ElemKey(env, y.of, v.a[i])]) \o EndKey(env, y.of)
    [] y.k = "variant" -> VarKey(NumW(v.i - 1, 4)) \o KeyV(env, y.f[v.i].t, v.v)
    [] y.k \in {"struct", "tuple", "pair"} -> Flat([i \in 1..Len(v.f) |-> KeyV(env, y.f[i].t, v.f[i])])
    [] y.k = "stdarray" -> Flat([i \in 1..Len(v.f) |-> KeyV(env, y.of, v.f[i])])
\* what keys are for
ProperPrefix(a, b) == Len(a) < Len(b) /\ Take(b, Len(a)) = a
KeyOrder(c, ka, kb) == Lex(ka, kb) = c /\ ~ProperPrefix(ka, kb) /\ ~ProperPrefix(kb, ka)
=============================================================================
