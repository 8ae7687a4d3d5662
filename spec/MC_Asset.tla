------------------------------ MODULE MC_Asset ------------------------------
(* A wallet: operations applied to a balance, on symbolic amounts 0, 1,        *)
(* about half of the limit, the limit.  The model computes with the real       *)
(* 8 byte numbers; Exact says that the wide result is the exact integer one    *)
(* (checked with independent identities) and is accepted iff within the limit. *)
EXTENDS SymAsset, Json
CONSTANT Steps
Sym == -3..3
HalfMax == DivSmall(MaxAmount, 2).q
Real(n) == LET m == IF n < 0 THEN -n ELSE n
               v == CASE m = 0 -> Zero(8) [] m = 1 -> NumW(1, 8) [] m = 2 -> HalfMax [] m = 3 -> MaxAmount
           IN IF n < 0 THEN Neg(v) ELSE v
Small8(vK) == IF vK < 0 THEN Neg(NumW(-vK, 8)) ELSE NumW(vK, 8)
VARIABLES vBal, vLast, vK
vars == <<vBal, vLast, vK>>
Init == \E a \in Sym : vBal = Real(a) /\ vLast = [op |-> "none", a |-> a, b |-> 0] /\ vK = 0
Do(op, b, r) == /\ vK < Steps /\ vK' = vK + 1
                /\ vBal' = IF InRange(r) THEN Take(r, 8) ELSE vBal
                /\ vLast' = [op |-> op, a |-> 0, b |-> b]
Next == \E b \in Sym :
  \/ Do("as_add", b, AddX(vBal, Real(b))) \/ Do("as_sub", b, SubX(vBal, Real(b)))
  \/ Do("as_mul", b, MulX(vBal, Small8(b)))
  \/ (b # 0 /\ Do("as_idiv", b, DivX(vBal, Small8(b))))
Emit == \A a \in Sym : Real(a) = vBal => PrintT("CASE " \o ToJson([op |-> vLast'.op, a |-> a, b |-> vLast'.b]))
Spec == Init /\ [][Next /\ Emit]_vars
Exact == InRange(vBal)
Scaled == \A b \in Sym :
  /\ Sub(AddX(vBal, Real(b)), SExt(Real(b), 9)) = SExt(vBal, 9)
  /\ (b # 0 => LET q == DivX(vBal, Small8(b)) p == MulX(Take(q, 8), Small8(b)) r == Sub(SExt(vBal, 17), p) IN
        /\ Cmp(Magn(r), Magn(SExt(Small8(b), 17))) < 0
        /\ (IsZero(r) \/ IsNeg(r) = IsNeg(vBal)))
=============================================================================
