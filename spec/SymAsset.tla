------------------------------ MODULE SymAsset ------------------------------
(* Symbol codes (up to seven letters in 8 bytes), symbols (precision byte +    *)
(* code), assets (signed 8 byte amount + symbol) and their texts.              *)
EXTENDS Num

IsUp(c) == c >= 65 /\ c <= 90
RECURSIVE UpEnd(_, _)
UpEnd(s, i) == IF i <= Len(s) /\ IsUp(s[i]) THEN UpEnd(s, i + 1) ELSE i
\* letters of a code value, up to its first zero byte
RECURSIVE CodeText(_)
CodeText(v) == IF Len(v) = 0 \/ v[1] = 0 THEN <<>> ELSE <<v[1]>> \o CodeText(Drop(v, 1))
CodeValid(v) == LET t == CodeText(v) IN
  Len(t) \in 1..7 /\ (\A i \in 1..Len(t) : IsUp(t[i])) /\ IsZero(Drop(v, Len(t)))
SymValid(sym) == CodeValid(Drop(sym, 1) \o <<0>>)
SymCode(sym) == Drop(sym, 1) \o <<0>>
SymText(sym) == SmallDec(sym[1]) \o <<44>> \o CodeText(SymCode(sym))
\* amount with its precision: sign, integer digits (at least one), point and digits
AmountText(amount, prec) ==
  LET d == DecText(Magn(amount))
      p == IF Len(d) <= prec THEN Rep(48, prec + 1 - Len(d)) \o d ELSE d
      k == Len(p) - prec
  IN (IF IsNeg(amount) THEN <<45>> ELSE <<>>) \o Take(p, k) \o (IF prec = 0 THEN <<>> ELSE <<46>> \o Drop(p, k))
AssetText(amount, sym) == AmountText(amount, sym[1]) \o <<32>> \o CodeText(SymCode(sym))

\* --- parsing: results [ok, v, next] -------------------------------------------
NoV == [ok |-> FALSE, v |-> <<>>, next |-> 0]
ParseCode(s, i0) ==
  LET i == SkipC(s, 32, i0)
      j == UpEnd(s, i)
  IN IF j = i \/ j - i > 7 THEN NoV ELSE [ok |-> TRUE, v |-> Ext(SubSeq(s, i, j - 1), 8), next |-> j]
ParsePrec(s) == \* leading digits, value up to 255
  LET j == DigitsEnd(s, 1) p == ParseDigits(SubSeq(s, 1, j - 1), 1) IN
  IF j = 1 \/ ~p.ok THEN NoV ELSE [ok |-> TRUE, v |-> p.v, next |-> j]
ParseSym(s) ==
  LET p == ParsePrec(s) IN
  IF ~p.ok \/ p.next > Len(s) \/ s[p.next] # 44 THEN NoV
  ELSE LET c == ParseCode(s, p.next + 1) IN
       IF ~c.ok THEN NoV ELSE [ok |-> TRUE, v |-> p.v \o Take(c.v, 7), next |-> c.next]
ParseAsset(s) == \* v = amount \o symbol
  LET i0 == SkipC(s, 32, 1)
      neg == i0 <= Len(s) /\ s[i0] = 45
      i1 == IF neg THEN i0 + 1 ELSE i0
      i2 == DigitsEnd(s, i1)
      point == i2 <= Len(s) /\ s[i2] = 46
      i3 == IF point THEN DigitsEnd(s, i2 + 1) ELSE i2
      digits == SubSeq(s, i1, i2 - 1) \o (IF point THEN SubSeq(s, i2 + 1, i3 - 1) ELSE <<>>)
      prec == IF point THEN i3 - i2 - 1 ELSE 0
      m == ParseDigits(digits, 8)
      inr == m.ok /\ (IF neg THEN Cmp(m.v, Zero(7) \o <<128>>) <= 0 ELSE ~IsNeg(m.v))
      c == ParseCode(s, i3)
  IN IF ~inr \/ prec > 255 \/ ~c.ok THEN NoV
     ELSE [ok |-> TRUE, v |-> (IF neg THEN Neg(m.v) ELSE m.v) \o <<prec>> \o Take(c.v, 7), next |-> c.next]

\* --- arithmetic --------------------------------------------------------------
MaxAmount == Rep(255, 7) \o <<63>>                     \* 2^62 - 1
InRange(x) == LET m == Magn(x) IN ~IsNeg(m) /\ Cmp(m, Ext(MaxAmount, Len(x))) <= 0
\* exact results in wider numbers
AddX(a, b) == Add(SExt(a, 9), SExt(b, 9))
SubX(a, b) == Sub(SExt(a, 9), SExt(b, 9))
MulX(a, b) == LET p == Ext(Mul(Magn(a), Magn(b)), 17) IN IF IsNeg(a) # IsNeg(b) THEN Neg(p) ELSE p
DivX(a, b) == LET q == Ext(DivMod(Magn(a), Magn(b)).q, 9) IN IF IsNeg(a) # IsNeg(b) THEN Neg(q) ELSE q
=============================================================================
