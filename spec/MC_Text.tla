-------------------------------- MODULE MC_Text --------------------------------
(***************************************************************************)
(* Every byte string over an alphabet around the borders of UTF-8, up to     *)
(* MaxLen, run through a scanner that keeps an unfinished sequence (vPend)    *)
(* and what it still needs; and a writer of JSON strings.                     *)
(***************************************************************************)
EXTENDS JsonText, Json
CONSTANTS MaxLen, Alpha
VARIABLES vText, vOut, vPend, vNeed
vars == <<vText, vOut, vPend, vNeed>>
\* what may follow: a list of [lo, hi]
C1 == <<128, 191>>
Need(a) == IF a <= 127 THEN <<>>
           ELSE IF a \in 194..223 THEN <<C1>>
           ELSE IF a = 224 THEN <<<<160, 191>>, C1>>
           ELSE IF a = 237 THEN <<<<128, 159>>, C1>>
           ELSE IF a \in 225..239 THEN <<C1, C1>>
           ELSE IF a = 240 THEN <<<<144, 191>>, C1, C1>>
           ELSE IF a = 244 THEN <<<<128, 143>>, C1, C1>>
           ELSE IF a \in 241..243 THEN <<C1, C1, C1>>
           ELSE <<<<1, 0>>>> \* nothing may: not the start of a sequence
Marks(n) == [i \in 1..n |-> 63]
Lead(a) == a <= 127 \/ a \in 194..244
Init == vText = <<>> /\ vOut = <<>> /\ vPend = <<>> /\ vNeed = <<>>
Fresh(out, a) == IF a <= 127 THEN vOut' = Append(out, a) /\ vPend' = <<>> /\ vNeed' = <<>>
                 ELSE IF ~Lead(a) THEN vOut' = Append(out, 63) /\ vPend' = <<>> /\ vNeed' = <<>>
                 ELSE vOut' = out /\ vPend' = <<a>> /\ vNeed' = Need(a)
Next == /\ Len(vText) < MaxLen
        /\ \E a \in Alpha :
             /\ vText' = Append(vText, a)
             /\ IF vPend = <<>> THEN Fresh(vOut, a)
                ELSE IF a >= vNeed[1][1] /\ a <= vNeed[1][2] THEN
                  IF Len(vNeed) = 1 THEN vOut' = vOut \o Append(vPend, a) /\ vPend' = <<>> /\ vNeed' = <<>>
                  ELSE vOut' = vOut /\ vPend' = Append(vPend, a) /\ vNeed' = Tail(vNeed)
                ELSE Fresh(vOut \o Marks(Len(vPend)), a)
Emit == PrintT("CASE " \o ToJson(vText'))
Spec == Init /\ [][Next /\ Emit]_vars
\* the scanner prints what the definition says
Scanner == vOut \o Marks(Len(vPend)) = Sane(vText)
Shape == LET s == Sane(vText) IN ValidUtf8(s) /\ Len(s) = Len(vText) /\ Sane(s) = s /\ (ValidUtf8(vText) => s = vText)
\* a writer of JSON strings, and what a reader makes of its text
Quoted(s) == <<34>> \o Flat([i \in 1..Len(s) |-> IF s[i] \in {34, 92} THEN <<92, s[i]>> ELSE IF s[i] < 32 \/ s[i] = 127 THEN B("\\u00") \o HexUpper(<<s[i]>>) ELSE <<s[i]>>]) \o <<34>>
Reads == Events(Quoted(Sane(vText))) = [ok |-> TRUE, ev |-> <<EvS(Sane(vText))>>]
\* a string with a sequence that is not UTF-8 is no JSON
Refuses == ~ValidUtf8(vText) => ~Events(Quoted(vText)).ok
=============================================================================
