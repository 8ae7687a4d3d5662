------------------------------ MODULE MC_Ints -------------------------------
(* The scanner of the implementation style - accumulate -|v| and test for     *)
(* overflow before every digit - as a state machine over 8-bit numbers, all   *)
(* texts up to five characters; it must accept exactly the texts whose value  *)
(* (computed with unbounded integers) is in range, as ParseInt says.          *)
EXTENDS Ints, Json
CONSTANTS Signed, MaxLen
Al == {45, 48, 49, 50, 53, 55, 56, 57, 32}
VARIABLES vText, vSt, vAcc        \* st: "start" "sign" "digits" "bad" "range"; acc = signed value
vars == <<vText, vSt, vAcc>>
Lo == IF Signed THEN -128 ELSE 0
Hi == IF Signed THEN 127 ELSE 255
Init == vText = <<>> /\ vSt = "start" /\ vAcc = 0
Neg1 == Len(vText) > 0 /\ vText[1] = 45
Read(ch) ==
  /\ Len(vText) < MaxLen
  /\ vText' = Append(vText, ch)
  /\ IF vSt \in {"bad", "range"} THEN UNCHANGED <<vSt, vAcc>>
     ELSE IF vSt = "start" /\ ch = 45 /\ Signed THEN vSt' = "sign" /\ vAcc' = 0
     ELSE IF ~IsDigit(ch) THEN vSt' = "bad" /\ vAcc' = vAcc
     ELSE LET d == ch - 48 v == IF Neg1 THEN 10 * vAcc - d ELSE 10 * vAcc + d IN
          IF v < Lo \/ v > Hi THEN vSt' = "range" /\ vAcc' = vAcc ELSE vSt' = "digits" /\ vAcc' = v
Next == \E ch \in Al : Read(ch)
Emit == PrintT("CASE " \o ToJson([text |-> vText']))
Spec == Init /\ [][Next /\ Emit]_vars
P == ParseInt(vText, 1, Signed)
Agree == P.ok = (vSt = "digits")
Value == P.ok => P.v = <<(vAcc + 256) % 256>>
Prints == P.ok => LET t == IntText(P.v, Signed) q == ParseInt(t, 1, Signed) IN q.ok /\ q.v = P.v /\ (t # <<45, 48>>) /\ Len(t) <= Len(vText)
=============================================================================
