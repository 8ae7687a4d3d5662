------------------------------- MODULE Ints --------------------------------
(* Integer types of the ABI: name -> [w: bytes, s: signed].                   *)
EXTENDS Num
IntTypes == TLCEval([x \in {"int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "int128", "uint128", "varuint32", "varint32"} |->
  CASE x = "int8" -> [w |-> 1, s |-> TRUE] [] x = "uint8" -> [w |-> 1, s |-> FALSE]
    [] x = "int16" -> [w |-> 2, s |-> TRUE] [] x = "uint16" -> [w |-> 2, s |-> FALSE]
    [] x = "int32" -> [w |-> 4, s |-> TRUE] [] x = "uint32" -> [w |-> 4, s |-> FALSE]
    [] x = "int64" -> [w |-> 8, s |-> TRUE] [] x = "uint64" -> [w |-> 8, s |-> FALSE]
    [] x = "int128" -> [w |-> 16, s |-> TRUE] [] x = "uint128" -> [w |-> 16, s |-> FALSE]
    [] x = "varuint32" -> [w |-> 4, s |-> FALSE] [] x = "varint32" -> [w |-> 4, s |-> TRUE]])
IntNames == DOMAIN IntTypes
IntTypeOf(b) == IntTypes[CHOOSE n \in IntNames : B(n) = b]
IsIntType(b) == \E n \in IntNames : B(n) = b

\* JSON number grammar: -? (0 | [1-9] d*) (. d+)? ([eE] [+-]? d+)?
JsonNumber(t) ==
  LET i0 == IF Len(t) > 0 /\ t[1] = 45 THEN 2 ELSE 1
      c(i) == IF i <= Len(t) THEN t[i] ELSE 0
      i1 == IF c(i0) = 48 THEN i0 + 1 ELSE DigitsEnd(t, i0)
      i2 == IF i1 > i0 /\ c(i1) = 46 THEN (IF IsDigit(c(i1 + 1)) THEN DigitsEnd(t, i1 + 1) ELSE 0) ELSE i1
      i3 == IF i2 > 0 /\ c(i2) \in {69, 101} THEN
              LET k == IF c(i2 + 1) \in {43, 45} THEN i2 + 2 ELSE i2 + 1 IN IF IsDigit(c(k)) THEN DigitsEnd(t, k) ELSE 0
            ELSE i2
  IN i1 > i0 /\ i2 > 0 /\ i3 = Len(t) + 1

IntText(x, s) == IF s THEN SDecText(x) ELSE DecText(x)
IntJson(x, ty) == LET t == IntText(x, ty.s) IN IF ty.w > 4 THEN <<34>> \o t \o <<34>> ELSE t
WS == {32, 9, 10, 13}
RECURSIVE TrimL(_)
TrimL(t) == IF Len(t) > 0 /\ t[1] \in WS THEN TrimL(Drop(t, 1)) ELSE t
Trim(t) == Rev(TrimL(Rev(TrimL(t))))
\* a quoted plain text or a bare number
IntFromJson(tx, ty) ==
  LET t == Trim(tx) IN
  IF Len(t) >= 2 /\ t[1] = 34 /\ t[Len(t)] = 34 THEN ParseInt(SubSeq(t, 2, Len(t) - 1), ty.w, ty.s)
  ELSE IF JsonNumber(t) THEN ParseInt(t, ty.w, ty.s) ELSE [ok |-> FALSE, v |-> Zero(ty.w)]
=============================================================================
