------------------------------ MODULE MC_Time -------------------------------
(* A calendar that only knows how to go to the next day; the closed formulas   *)
(* of Time must agree with it on every day.                                    *)
EXTENDS Time, Json
CONSTANTS Starts0, Span          \* first years and number of days walked from each
VARIABLES vY, vM, vD, vN, vLeft
vars == <<vY, vM, vD, vN, vLeft>>
Init == vY \in Starts0 /\ vM = 1 /\ vD = 1 /\ vN = YearStart(vY) /\ vLeft = Span
NextDay ==
  /\ vLeft > 0 /\ vLeft' = vLeft - 1 /\ vN' = vN + 1
  /\ IF vD < MonthLen(vY, vM) THEN vD' = vD + 1 /\ UNCHANGED <<vY, vM>>
     ELSE IF vM < 12 THEN vD' = 1 /\ vM' = vM + 1 /\ vY' = vY
     ELSE vD' = 1 /\ vM' = 1 /\ vY' = vY + 1
Emit == (vD' = 1 \/ vD' = MonthLen(vY', vM') \/ (vM' = 2 /\ vD' > 27)) => PrintT("CASE " \o ToJson([y |-> vY', m |-> vM', d |-> vD', n |-> vN' - EpochDay]))
Spec == Init /\ [][NextDay /\ Emit]_vars
Agree == DayNumber(vY, vM, vD) = vN /\ DateOf(vN) = [y |-> vY, m |-> vM, d |-> vD]
\* texts of an instant of that day read back
RoundTrip == \A us \in {0, 999, 1000, 86399999} :
   LET t == Sub(Add(DayUs(vN), MulAdd(Num8(us), 1000, 123).v), DayUs(EpochDay)) IN
   ParseTime(TimeText(t), 6).us = Sub(t, Num8(123))
=============================================================================
