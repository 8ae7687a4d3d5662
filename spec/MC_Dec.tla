------------------------------- MODULE MC_Dec --------------------------------
(* Integers without native arithmetic: the number is a row of bytes; every digit *)
(* multiplies each of them by ten and carries, a minus sign complements them at   *)
(* the end.  It accepts exactly the texts ParseInt accepts, with the same value.   *)
EXTENDS Ints, Json
CONSTANTS Width, MaxLen
Al == {45, 48, 49, 50, 51, 53, 54, 55, 56, 57}
VARIABLES vText, vSigned, vMinus, vRow, vSt    \* vSt: "sign" (nothing read yet), "digits", "bad"
vars == <<vText, vSigned, vMinus, vRow, vSt>>
Init == vText = <<>> /\ vSigned \in BOOLEAN /\ vMinus = FALSE /\ vRow = [i \in 1..Width |-> 0] /\ vSt = "sign"
\* row * 10 + d, byte by byte
RECURSIVE TimesTen(_, _, _)
TimesTen(row, i, carry) == IF i > Width THEN [row |-> row, carry |-> carry] ELSE
  LET x == row[i] * 10 + carry IN TimesTen([row EXCEPT ![i] = x % 256], i + 1, x \div 256)
RECURSIVE Complement(_, _, _)
Complement(row, i, carry) == IF i > Width THEN row ELSE LET x == (255 - row[i]) + carry IN Complement([row EXCEPT ![i] = x % 256], i + 1, x \div 256)
Read(ch) ==
  /\ Len(vText) < MaxLen /\ vSt # "bad"
  /\ vText' = Append(vText, ch) /\ UNCHANGED vSigned
  /\ IF vSt = "sign" /\ ch = 45 /\ vSigned /\ ~vMinus THEN vMinus' = TRUE /\ UNCHANGED <<vRow, vSt>>
     ELSE LET m == TimesTen(vRow, 1, ch - 48) IN
          IF ~IsDigit(ch) \/ m.carry > 0 THEN vSt' = "bad" /\ UNCHANGED <<vRow, vMinus>>
          ELSE vSt' = "digits" /\ vRow' = m.row /\ UNCHANGED vMinus
Next == \E ch \in Al : Read(ch)
Emit == PrintT("CASE " \o ToJson([t |-> vText', s |-> vSigned]))
Spec == Init /\ [][Next /\ Emit]_vars
Top == vRow[Width] >= 128
Nil == [i \in 1..Width |-> 0]
Result == IF ~vSigned THEN [ok |-> vSt = "digits", v |-> vRow]
          ELSE IF vMinus THEN LET n == Complement(vRow, 1, 1) IN [ok |-> vSt = "digits" /\ (n[Width] >= 128 \/ n = Nil), v |-> n]
          ELSE [ok |-> vSt = "digits" /\ ~Top, v |-> vRow]
P == ParseInt(vText, Width, vSigned)
RECURSIVE ValOf(_, _)
ValOf(row, i) == IF i > Width THEN 0 ELSE row[i] + 256 * ValOf(row, i + 1)
DigitsOf == IF vMinus THEN Drop(vText, 1) ELSE vText
RECURSIVE NumOf(_, _)
NumOf(t, acc) == IF t = <<>> THEN acc ELSE NumOf(Drop(t, 1), acc * 10 + t[1] - 48)
Holding == vSt = "digits" => ValOf(vRow, 1) = NumOf(DigitsOf, 0)
Agree == Result.ok = P.ok /\ (P.ok => Result.v = P.v)
Negated == LET n == Complement(vRow, 1, 1) IN Complement(n, 1, 1) = vRow /\ (n = vRow) = (vRow = Nil \/ vRow = [Nil EXCEPT ![Width] = 128])
Prints == P.ok => LET t == IntText(P.v, vSigned) q == ParseInt(t, Width, vSigned) IN q.ok /\ q.v = P.v
=============================================================================
