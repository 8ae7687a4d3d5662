----------------------------- MODULE FloatText ------------------------------
(* Binary floating point and decimal text, judged exactly: a text D * 10^e is  *)
(* compared with the midpoints around a representable number in integers.      *)
EXTENDS Num

\* a format: p = significant bits, q0 = exponent of the least bit of a subnormal, q1 = of the largest numbers
Fmt32 == [w |-> 4, p |-> 24, q0 |-> -149, q1 |-> 104, eb |-> 8]
Fmt64 == [w |-> 8, p |-> 53, q0 |-> -1074, q1 |-> 971, eb |-> 11]

RECURSIVE StripZ(_)
StripZ(x) == IF Len(x) > 0 /\ x[Len(x)] = 0 THEN StripZ(Take(x, Len(x) - 1)) ELSE x
Grow(x, m) == LET t == MulAdd(x, m, 0) IN StripZ(t.v \o <<t.c % 256, (t.c \div 256) % 256, t.c \div 65536>>)
RECURSIVE Times10(_, _)
Times10(x, n) == IF n = 0 THEN x ELSE IF n >= 6 THEN Times10(Grow(x, 1000000), n - 6) ELSE Grow(x, 10 ^ n)
Times2(x, n) == Rep(0, n \div 8) \o Grow(x, 2 ^ (n % 8))
CmpN(x, y) == LET w == IF Len(x) > Len(y) THEN Len(x) ELSE Len(y) IN Cmp(Ext(x, w), Ext(y, w))
Max0(n) == IF n > 0 THEN n ELSE 0
\* sign of d * 10^e - m * 2^q
CmpDec(d, e, m, q) ==
  IF StripZ(d) = <<>> THEN (IF StripZ(m) = <<>> THEN 0 ELSE -1)
  ELSE CmpN(Times2(Times10(d, Max0(e)), Max0(0 - q)), Times2(Times10(m, Max0(0 - e)), Max0(q)))

\* --- representable numbers: m * 2^q --------------------------------------------
\* [kind: "fin" | "inf" | "nan", neg, m (bignum), q]
BitsValue(bits, f) ==
  LET b == NumBits(bits)
      e == BitsVal(SubSeq(b, 2, f.eb + 1))
      nfr == f.p - 1
      fr == SubSeq(b, f.eb + 2, Len(b))
      pad == Rep(0, (8 - (f.p % 8)) % 8)
      m(h) == StripZ(BitsNum(pad \o <<h>> \o fr))
      emax == 2 ^ f.eb - 1
  IN [kind |-> IF e < emax THEN "fin" ELSE IF \A i \in 1..nfr : fr[i] = 0 THEN "inf" ELSE "nan",
      neg |-> b[1] = 1, m |-> m(IF e = 0 THEN 0 ELSE 1), q |-> f.q0 + (IF e = 0 THEN 0 ELSE e - 1),
      low |-> e > 1 /\ \A i \in 1..nfr : fr[i] = 0]       \* low: the gap below is half the gap above
AddB(x, n) == StripZ(AddC(Ext(x, Len(x) + 1), Ext(NumW(n, 4), Len(x) + 5), 0).v)
Bump(x, n) == LET w == Len(x) + 2 IN StripZ(Add(Ext(x, w), Ext(NumW(n, 2), w)))
Drop1(x) == LET w == Len(x) IN StripZ(Sub(x, Ext(<<1>>, w)))
Even(m) == m = <<>> \/ m[1] % 2 = 0
\* d * 10^e rounds to v (ties to even)
Nearest(d, e, v) ==
  LET up == CmpDec(d, e, Bump(Grow(v.m, 2), 1), v.q - 1)
      dn == IF v.m = <<>> THEN 1 ELSE IF v.low THEN CmpDec(d, e, Drop1(Grow(v.m, 4)), v.q - 2) ELSE CmpDec(d, e, Drop1(Grow(v.m, 2)), v.q - 1)
  IN (up < 0 \/ (up = 0 /\ Even(v.m))) /\ (dn > 0 \/ (dn = 0 /\ Even(v.m)))
\* at least the first magnitude that rounds beyond the largest finite number: (2^(p+1) - 1) * 2^(q1 - 1)
TopMid(f) == Drop1(Times2(<<1>>, f.p + 1))
Overflows(d, e, f) == CmpDec(d, e, TopMid(f), f.q1 - 1) >= 0

\* --- decimal texts ---------------------------------------------------------------
\* sign? digits? (. digits?)? (e sign? digits)? with at least one digit before the exponent
Decimal(t) ==
  LET c(i) == IF i <= Len(t) THEN t[i] ELSE 0
      i0 == IF c(1) \in {43, 45} THEN 2 ELSE 1
      i1 == DigitsEnd(t, i0)
      dot == c(i1) = 46
      i2 == IF dot THEN DigitsEnd(t, i1 + 1) ELSE i1
      ds == SubSeq(t, i0, i1 - 1) \o (IF dot THEN SubSeq(t, i1 + 1, i2 - 1) ELSE <<>>)
      hasE == c(i2) \in {69, 101}
      es == IF c(i2 + 1) \in {43, 45} THEN i2 + 2 ELSE i2 + 1
      i3 == IF hasE THEN DigitsEnd(t, es) ELSE i2
      ex == IF hasE THEN SubSeq(t, SkipC(t, 48, es), i3 - 1) ELSE <<>>
      big == Len(ex) > 6
      ev == IF big THEN 9999999 ELSE FoldLeft(LAMBDA a, x : 10 * a + x - 48, 0, ex)
      scale == IF dot THEN i2 - i1 - 1 ELSE 0
      nz == SkipC(ds, 48, 1)
  IN [ok |-> ds # <<>> /\ i3 = Len(t) + 1 /\ (hasE => i3 > es), neg |-> c(1) = 45,
      ds |-> Drop(ds, nz - 1), e |-> (IF hasE /\ c(i2 + 1) = 45 THEN 0 - ev ELSE ev) - scale]
\* magnitude class before any big arithmetic: decimal point position
Mag(d) == Len(d.ds) + d.e
DigitsNum(ds) == StripZ(ParseDigits(ds, (Len(ds) \div 2) + 1).v)
\* the bits read from a decimal text are right
ReadsAs(d, bits, f) ==
  LET v == BitsValue(bits, f) IN
  /\ v.kind = "fin" /\ v.neg = d.neg
  /\ IF d.ds = <<>> \/ Mag(d) < -400 THEN v.m = <<>>
     ELSE Mag(d) < 400 /\ Nearest(DigitsNum(d.ds), d.e, v)
TooBig(d, f) == d.ds # <<>> /\ Mag(d) >= -400 /\ (Mag(d) > 400 \/ Overflows(DigitsNum(d.ds), d.e, f))
\* spellings outside of this specification: white space, hexadecimal, inf and nan words
Lower(s) == [i \in 1..Len(s) |-> IF s[i] >= 65 /\ s[i] <= 90 THEN s[i] + 32 ELSE s[i]]
Words3 == TLCEval({B("inf"), B("nan")})
Odd(t) == LET l == Lower(t) u == IF Len(l) > 0 /\ l[1] \in {43, 45} THEN Drop(l, 1) ELSE l IN
  (Len(t) > 0 /\ t[1] \in {32, 9, 10, 11, 12, 13}) \/ Take(u, IF Len(u) < 3 THEN Len(u) ELSE 3) \in Words3 \/ Starts(u, B("0x"))
Infinity == B("Infinity")
MinusInfinity == B("-Infinity")
NaN == B("NaN")
=============================================================================
