-------------------------------- MODULE Num --------------------------------
(* Wide unsigned numbers: little-endian sequences of bytes of a fixed width. *)
EXTENDS Bytes

Zero(w) == Rep(0, w)
NumW(n, w) == \* small natural (< 2^31) as w bytes
  [i \in 1..w |-> IF i > 4 THEN 0 ELSE (n \div (256 ^ (i - 1))) % 256]
IsZero(x) == \A i \in 1..Len(x) : x[i] = 0

\* x*m + a with 0 <= m <= 2^22, result [v, c] (c = carry out)
MulAdd(x, m, a) ==
  FoldLeft(LAMBDA acc, d : LET t == d * m + acc.c IN
             [v |-> Append(acc.v, t % 256), c |-> t \div 256],
           [v |-> <<>>, c |-> a], x)
\* quotient and remainder by 1 <= d <= 2^22
DivSmall(x, d) ==
  LET r == FoldLeft(LAMBDA acc, k : LET t == acc.r * 256 + k IN
                      [q |-> <<t \div d>> \o acc.q, r |-> t % d],
                    [q |-> <<>>, r |-> 0], Rev(x))
  IN r
RECURSIVE CmpAt(_, _, _)
CmpAt(x, y, i) == IF i = 0 THEN 0 ELSE IF x[i] < y[i] THEN -1 ELSE IF x[i] > y[i] THEN 1 ELSE CmpAt(x, y, i - 1)
Cmp(x, y) == CmpAt(x, y, Len(x))          \* equal widths

RECURSIVE AddAt(_, _, _, _, _)
AddAt(x, y, i, c, acc) ==
  IF i > Len(x) THEN [v |-> acc, c |-> c]
  ELSE LET t == x[i] + y[i] + c IN AddAt(x, y, i + 1, t \div 256, Append(acc, t % 256))
AddC(x, y, c) == AddAt(x, y, 1, c, <<>>)
Add(x, y) == AddC(x, y, 0).v              \* modulo 256^w
Not8(x) == [i \in 1..Len(x) |-> 255 - x[i]]
Neg(x) == AddC(Not8(x), Zero(Len(x)), 1).v
Sub(x, y) == AddC(x, Not8(y), 1).v
IsNeg(x) == x[Len(x)] >= 128              \* as two's complement
Ext(x, w) == IF Len(x) >= w THEN Take(x, w) ELSE x \o Zero(w - Len(x))
SExt(x, w) == IF Len(x) >= w THEN Take(x, w)
              ELSE x \o Rep(IF IsNeg(x) THEN 255 ELSE 0, w - Len(x))
Magn(x) == IF IsNeg(x) THEN Neg(x) ELSE x \* magnitude of a signed number (same width, unsigned)
SCmp(x, y) == IF IsNeg(x) # IsNeg(y) THEN (IF IsNeg(x) THEN -1 ELSE 1) ELSE Cmp(x, y)

\* full product, width Len(x)+Len(y)
Mul(x, y) ==
  LET w == Len(x) + Len(y)
      step(acc, i) == LET row == MulAdd(x, y[i], 0)
                          r == Zero(i - 1) \o row.v \o <<row.c>>
                      IN  Add(acc, Ext(r, w))
  IN FoldLeft(step, Zero(w), [i \in 1..Len(y) |-> i])
MulMod(x, y) == Take(Mul(x, y), Len(x))   \* modulo 256^Len(x)

\* bits, most significant first
BitsOf(n, k) == [i \in 1..k |-> (n \div (2 ^ (k - i))) % 2]
BitsVal(b) == FoldLeft(LAMBDA a, x : 2 * a + x, 0, b)
NumBits(x) == Flat([i \in 1..Len(x) |-> BitsOf(x[Len(x) + 1 - i], 8)])
BitsNum(b) == [i \in 1..(Len(b) \div 8) |->
                 LET k == Len(b) - 8 * i IN BitsVal(SubSeq(b, k + 1, k + 8))]
\* long division (shift and subtract): [q, r]
DivMod(x, y) ==
  LET w == Len(x) + 1
      yy == Ext(y, w)
      step(acc, bit) ==
        LET r2 == LET t == MulAdd(acc.r, 2, bit) IN t.v
            ge == Cmp(r2, yy) >= 0
        IN [q |-> Append(acc.q, IF ge THEN 1 ELSE 0), r |-> IF ge THEN Sub(r2, yy) ELSE r2]
      res == FoldLeft(step, [q |-> <<>>, r |-> Zero(w)], NumBits(x))
  IN [q |-> BitsNum(res.q), r |-> Take(res.r, Len(x))]

\* --- decimal text ----------------------------------------------------------
SmallDec(n) == \* natural < 2^31
  LET RECURSIVE go(_)
      go(k) == IF k < 10 THEN <<48 + k>> ELSE Append(go(k \div 10), 48 + (k % 10))
  IN go(n)
PadDec(n, k) == LET t == SmallDec(n) IN IF Len(t) >= k THEN t ELSE Rep(48, k - Len(t)) \o t
RECURSIVE DecText(_)
DecText(x) == LET d == DivSmall(x, 1000000) IN
  IF IsZero(d.q) THEN SmallDec(d.r) ELSE DecText(d.q) \o PadDec(d.r, 6)
SDecText(x) == IF IsNeg(x) THEN <<45>> \o DecText(Magn(x)) ELSE DecText(x)

\* digits (bytes '0'..'9', at least one) to a w byte number; ok iff it fits
ParseDigits(s, w) ==
  FoldLeft(LAMBDA acc, c : IF ~acc.ok THEN acc ELSE
             LET t == MulAdd(acc.v, 10, c - 48) IN [ok |-> t.c = 0, v |-> t.v],
           [ok |-> TRUE, v |-> Zero(w)], s)
\* optional '-' then at least one digit; w bytes signed or unsigned
ParseInt(s, w, signed) ==
  LET neg == Len(s) > 0 /\ s[1] = 45
      d == IF neg THEN Drop(s, 1) ELSE s
      p == ParseDigits(d, w)
  IN IF Len(d) = 0 \/ ~AllDigits(d) \/ (neg /\ ~signed) THEN [ok |-> FALSE, v |-> Zero(w)]
     ELSE IF ~p.ok THEN [ok |-> FALSE, v |-> Zero(w)]
     ELSE IF ~signed THEN p
     ELSE IF neg THEN [ok |-> Cmp(p.v, Zero(w - 1) \o <<128>>) <= 0, v |-> Neg(p.v)]
     ELSE [ok |-> ~IsNeg(p.v), v |-> p.v]
\* small value of a number known to be < 2^31
Small(x) == FoldLeft(LAMBDA a, d : a * 256 + d, 0, Rev(Take(x, IF Len(x) < 4 THEN Len(x) ELSE 4)))
FitsSmall(x) == \A i \in 1..Len(x) : (i = 4 => x[i] < 128) /\ (i > 4 => x[i] = 0)
=============================================================================
