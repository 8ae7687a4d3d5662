--------------------------- MODULE MC_FixedBytes ----------------------------
(* A word buffer filled byte by byte by shifting into the current word (what   *)
(* a machine does) against the definition; conversions between word sizes.     *)
EXTENDS FixedBytes, Json
CONSTANTS MaxLen
Al == {0, 1, 128, 255}
WS == {1, 2, 4, 8}
VARIABLES vBytes, vWs        \* ws[w]: words as big-endian shifted registers
vars == <<vBytes, vWs>>
Init == vBytes = <<>> /\ vWs = [w \in WS |-> <<>>]
Shift(reg, pos, b) == [reg EXCEPT ![pos] = b]
Put(w, h, b) == LET k == Len(vBytes) % w IN
  IF k = 0 THEN h \o Shift(Zero(w), w, b) ELSE Shift(h, Len(h) - k, b)
Next == Len(vBytes) < MaxLen /\ \E b \in Al : vBytes' = Append(vBytes, b) /\ vWs' = [w \in WS |-> Put(w, vWs[w], b)]
Emit == PrintT("CASE " \o ToJson([b |-> vBytes']))
Spec == Init /\ [][Next /\ Emit]_vars
Layout == \A w \in WS : vWs[w] = ToWords(vBytes, w)
Back == \A w \in WS : FromWords(ToWords(vBytes, w), w, Len(vBytes)) = vBytes /\ CleanTail(ToWords(vBytes, w), w, Len(vBytes))
\* order of values = order of their word arrays, for every word size
BE(h, w) == Flat([i \in 1..(Len(h) \div w) |-> Rev(SubSeq(h, (i - 1) * w + 1, i * w))])
Order == \A w \in WS : \A b \in Al : Len(vBytes) > 0 =>
  LET o == [vBytes EXCEPT ![Len(vBytes)] = b] IN Lex(vBytes, o) = Lex(BE(ToWords(vBytes, w), w), BE(ToWords(o, w), w))
=============================================================================
