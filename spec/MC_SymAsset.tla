---------------------------- MODULE MC_SymAsset -----------------------------
(* Asset vText typed one character at a time: a scanner automaton against the   *)
(* grammar of SymAsset.                                                        *)
EXTENDS SymAsset, Json
CONSTANT MaxLen
Al == {32, 45, 46, 48, 57, 65, 90, 44}
VARIABLES vText, vSt, vNeg, vVal, vPrec, vCode
vars == <<vText, vSt, vNeg, vVal, vPrec, vCode>>
Init == vText = <<>> /\ vSt = "start" /\ vNeg = FALSE /\ vVal = 0 /\ vPrec = 0 /\ vCode = <<>>
Key(ch) ==
  /\ Len(vText) < MaxLen /\ vText' = Append(vText, ch)
  /\ LET go(s, n, v, p, c) == vSt' = s /\ vNeg' = n /\ vVal' = v /\ vPrec' = p /\ vCode' = c
         same(s) == go(s, vNeg, vVal, vPrec, vCode)
     IN CASE vSt = "dead" -> same("dead")
          [] ch = 32 -> same(IF vSt = "start" THEN "start" ELSE IF vSt \in {"int", "frac", "gap"} THEN "gap" ELSE "dead")
          [] ch = 45 -> IF vSt = "start" THEN go("int", TRUE, vVal, vPrec, vCode) ELSE same("dead")
          [] ch = 46 -> same(IF vSt \in {"start", "int"} THEN "frac" ELSE "dead")
          [] ch = 44 -> same("dead")
          [] IsDigit(ch) -> IF vSt \in {"start", "int"} THEN go("int", vNeg, 10 * vVal + ch - 48, vPrec, vCode)
                            ELSE IF vSt = "frac" THEN go("frac", vNeg, 10 * vVal + ch - 48, vPrec + 1, vCode) ELSE same("dead")
          [] OTHER -> IF Len(vCode) < 7 THEN go("code", vNeg, vVal, vPrec, Append(vCode, ch)) ELSE same("dead")
Next == \E ch \in Al : Key(ch)
Emit == PrintT("CASE " \o ToJson([text |-> vText', live |-> vSt' = "code"]))
Spec == Init /\ [][Next /\ Emit]_vars
P == ParseAsset(vText)
Whole == P.ok /\ P.next = Len(vText) + 1
Agree == Whole = (vSt = "code")
Value == vSt = "code" => P.v = (IF vNeg THEN Neg(NumW(vVal, 8)) ELSE NumW(vVal, 8)) \o <<vPrec>> \o Ext(vCode, 7)
RoundTrip == Whole => LET t == AssetText(Take(P.v, 8), Drop(P.v, 8)) IN ParseAsset(t).ok /\ ParseAsset(t).v = P.v
=============================================================================
