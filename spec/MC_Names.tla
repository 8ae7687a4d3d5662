------------------------------ MODULE MC_Names ------------------------------
(* A name is typed character by character; all texts over a boundary         *)
(* alphabet at the head, a fixed filler, and again around positions 12..14.  *)
EXTENDS Names, Json
CONSTANT MaxTail
Chars == {46, 49, 53, 97, 106, 107, 122, 65, 54}
VARIABLES vText, vPhase
vars == <<vText, vPhase>>
Init == vText = <<>> /\ vPhase = "head"
TypeHead == /\ vPhase = "head" /\ Len(vText) < MaxTail
            /\ \E ch \in Chars : vText' = Append(vText, ch)
            /\ vPhase' = "head"
Fill == /\ vPhase = "head" /\ Len(vText) > 0
        /\ \E f \in {46, 109}, n \in {11, 12} : vText' = vText \o Rep(f, n - Len(vText))
        /\ vPhase' = "tail"
TypeTail == /\ vPhase = "tail" /\ Len(vText) < 14
            /\ \E ch \in Chars : vText' = Append(vText, ch)
            /\ vPhase' = "tail"
Next == TypeHead \/ Fill \/ TypeTail
Emit == PrintT("CASE " \o ToJson([text |-> vText', value |-> NameOf(vText')]))
Spec == Init /\ [][Next /\ Emit]_vars

v == NameOf(vText)
RoundTrip == NameOf(NameText(v)) = v /\ StrictOK(NameText(v)) /\ (StrictOK(vText) => NameText(v) = TrimDots(vText))
Bounded == Len(NameText(v)) <= 13 /\ TrimDots(NameText(v)) = NameText(v)
StrictIff == StrictOK(vText) => Len(vText) <= 13
PartsAgree == LET t == NameText(v) p == NameText(NamePrefix(v)) s == NameText(NameSuffix(v)) IN
  IF FindLast(t, 46) = 0 THEN p = t /\ s = t
  ELSE t = Take(t, FindLast(t, 46) - 1) \o <<46>> \o s /\ p = TrimDots(Take(t, FindLast(t, 46) - 1))
Others == {Rep(46, 13), <<97>>, <<97, 46, 97>>, Rep(122, 12) \o <<106>>, Rep(109, 12)}
OrderAgrees == \A o \in Others : NameOrder(v, NameOf(o)) = Cmp(v, NameOf(o))
=============================================================================
