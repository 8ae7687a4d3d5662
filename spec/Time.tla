------------------------------- MODULE Time --------------------------------
(* Proleptic Gregorian calendar, counted from 0000-01-01.  Time points are    *)
(* signed 8 byte microsecond counts since 1970.                               *)
EXTENDS Num

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
\* days before 1 January of year y
YearStart(y) == 365 * y + ((y + 3) \div 4) - ((y + 99) \div 100) + ((y + 399) \div 400)
MonthStart(y, m) == FoldLeft(LAMBDA a, k : a + MonthLen(y, k), 0, [i \in 1..(m - 1) |-> i])
DayNumber(y, m, d) == YearStart(y) + MonthStart(y, m) + d - 1
EpochDay == YearStart(1970)
Epoch2000 == YearStart(2000)
\* the year holding day n, by search
YearOf(n) == CHOOSE y \in (n \div 366)..((n \div 365) + 1) : YearStart(y) <= n /\ n < YearStart(y + 1)
DateOf(n) == LET y == YearOf(n)
                 m == CHOOSE k \in 1..12 : YearStart(y) + MonthStart(y, k) <= n /\ n < YearStart(y) + MonthStart(y, k) + MonthLen(y, k)
             IN [y |-> y, m |-> m, d |-> n - YearStart(y) - MonthStart(y, m) + 1]
MaxDay == YearStart(10000)                 \* exclusive

\* small naturals times powers, as 8 byte numbers
Num8(n) == NumW(n, 8)
Times(x, m) == MulAdd(x, m, 0).v
\* microseconds since 0000-01-01 of the instant 1970 + us (us a signed 8 byte number)
DayUs(n) == Times(Times(Times(Num8(n), 86400), 1000), 1000)
Since0(us) == Add(us, DayUs(EpochDay))
\* instant -> calendar: [in, day, sod, us]
Split(us) ==
  LET t == Since0(us)
      a == DivSmall(t, 1000000)
      b == DivSmall(a.q, 86400)
  IN [in |-> ~IsNeg(t) /\ FitsSmall(b.q) /\ Small(b.q) < MaxDay, day |-> Small(b.q), sod |-> b.r, us |-> a.r]
TimeText(us) ==
  LET s == Split(us) d == DateOf(s.day) IN
  PadDec(d.y, 4) \o <<45>> \o PadDec(d.m, 2) \o <<45>> \o PadDec(d.d, 2) \o <<84>> \o
  PadDec(s.sod \div 3600, 2) \o <<58>> \o PadDec((s.sod \div 60) % 60, 2) \o <<58>> \o PadDec(s.sod % 60, 2) \o <<46>> \o PadDec(s.us \div 1000, 3)
SecUs(s4) == Times(Times(Ext(s4, 8), 1000), 1000)      \* 4 byte seconds -> us
BlockUs(slot) == Add(Times(Times(Ext(slot, 8), 500), 1000), DayUs(Epoch2000 - EpochDay))

\* --- parsing ---------------------------------------------------------------
Num2(t, i) == (t[i] - 48) * 10 + t[i + 1] - 48
FormOK(t) == /\ Len(t) >= 19
             /\ \A i \in {1, 2, 3, 4, 6, 7, 9, 10, 12, 13, 15, 16, 18, 19} : IsDigit(t[i])
             /\ t[5] = 45 /\ t[8] = 45 /\ t[11] = 84 /\ t[14] = 58 /\ t[17] = 58
FieldsOK(t) == LET y == 100 * Num2(t, 1) + Num2(t, 3) m == Num2(t, 6) d == Num2(t, 9) IN
  m \in 1..12 /\ d >= 1 /\ d <= MonthLen(y, m) /\ Num2(t, 12) < 24 /\ Num2(t, 15) < 60 /\ Num2(t, 18) < 60
\* [form: has the shape with nothing after the fraction, fields: denotes an instant, us: that instant]
ParseTime(t, maxdigits) ==
  IF ~FormOK(t) THEN [form |-> FALSE, fields |-> FALSE, us |-> Zero(8), sec |-> Zero(8)]
  ELSE LET k == IF Len(t) = 19 THEN 20 ELSE IF t[20] = 46 THEN DigitsEnd(t, 21) ELSE 0
           nd == IF Len(t) <= 20 \/ k = 0 THEN 0 ELSE k - 21
           form == k = Len(t) + 1 /\ (maxdigits < 0 \/ nd <= maxdigits)
       IN IF ~form \/ ~FieldsOK(t) THEN [form |-> form, fields |-> FALSE, us |-> Zero(8), sec |-> Zero(8)]
          ELSE LET n == DayNumber(100 * Num2(t, 1) + Num2(t, 3), Num2(t, 6), Num2(t, 9))
                   sec == Sub(Add(Times(Num8(n), 86400), Num8(Num2(t, 12) * 3600 + Num2(t, 15) * 60 + Num2(t, 18))), Times(Num8(EpochDay), 86400))
                   fr == FoldLeft(LAMBDA a, i : 10 * a + (IF i <= nd THEN t[20 + i] - 48 ELSE 0), 0, [i \in 1..6 |-> i])
               IN [form |-> TRUE, fields |-> TRUE, us |-> Add(MulMod(sec, Num8(1000000)), Num8(fr)), sec |-> sec]
Fits32(x) == ~IsNeg(x) /\ IsZero(Drop(x, 4))
\* half second slots since 2000 of an instant not before 2000: [in, slot]
Slot(us) == LET r == Sub(us, DayUs(Epoch2000 - EpochDay)) q == DivSmall(DivSmall(DivSmall(r, 1000).q, 500).q, 1).q IN
  [in |-> ~IsNeg(us) /\ ~IsNeg(r) /\ IsZero(Drop(q, 4)), slot |-> Take(q, 4)]
=============================================================================
