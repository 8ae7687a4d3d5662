------------------------------ MODULE MC_Float ------------------------------
(* The rounding judge on a toy format: every decimal text has exactly one      *)
(* nearest representable number (or overflows), and it is the one found by     *)
(* comparing distances with plain integers.  The texts go to the real code.    *)
EXTENDS FloatText, Json
CONSTANTS MaxLen
Toy == [w |-> 1, p |-> 4, q0 |-> -6, q1 |-> 7, eb |-> 4]      \* all 256 bit patterns
Al == B("0159.e-")
VARIABLE vText
Init == vText = <<>>
Next == Len(vText) < MaxLen /\ \E i \in 1..Len(Al) : vText' = Append(vText, Al[i])
Emit == PrintT("CASE " \o ToJson([t |-> vText', ok |-> Decimal(vText').ok]))
Spec == Init /\ [][Next /\ Emit]_vText
D == Decimal(vText)
Pos == 0..119                                                 \* finite non-negative patterns
Hits == {n \in Pos : Nearest(DigitsNum(D.ds), D.e, BitsValue(<<n>>, Toy))}
\* plain integers: scaled by 2^7 * 10^k
Scaled(n) == LET e == n \div 8 fr == n % 8 IN IF e = 0 THEN 2 * fr ELSE 2 * (8 + fr) * 2 ^ (e - 1)
Small1 == D.ok /\ ~D.neg /\ Len(D.ds) <= 3 /\ D.e <= 0 /\ D.e >= -3
Val == FoldLeft(LAMBDA a, x : 10 * a + x - 48, 0, D.ds)
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Dist(n) == Abs(Val * 128 - Scaled(n) * 10 ^ (0 - D.e))
Best == CHOOSE n \in Pos : \A k \in Pos : Dist(n) < Dist(k) \/ (Dist(n) = Dist(k) /\ (n = k \/ n % 2 = 0))
One == (D.ok /\ ~D.neg /\ D.ds # <<>> /\ Abs(D.e) < 50) =>
  IF Overflows(DigitsNum(D.ds), D.e, Toy) THEN Hits = {} ELSE Cardinality(Hits) = 1
Agree == (Small1 /\ D.ds # <<>> /\ ~Overflows(DigitsNum(D.ds), D.e, Toy)) => Hits = {Best}
=============================================================================
