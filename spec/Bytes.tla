------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Texts and binaries are sequences over 0..255.  TLC has 32 bit integers, *)
(* so every wider number is a little-endian sequence of bytes ("limbs"),   *)
(* which is also its wire form.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Bitwise

Byte == 0..255

\* --- characters -----------------------------------------------------------
Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CharCode == TLCEval([c \in {SubSeq(Printable, i, i) : i \in 1..95} |->
               31 + (CHOOSE i \in 1..95 : SubSeq(Printable, i, i) = c)])
\* the bytes of a literal
B(s) == SubSeq([i \in 1..Len(s) |-> CharCode[SubSeq(s, i, i)]], 1, Len(s))

IsDigit(c) == c >= 48 /\ c <= 57
AllDigits(s) == \A i \in 1..Len(s) : IsDigit(s[i])

\* --- sequences ------------------------------------------------------------
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, n)
Rep(x, n) == [i \in 1..n |-> x]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Ends(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)

\* first index >= from with P, or 0
RECURSIVE FindFrom(_, _, _)
FindFrom(s, c, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = c THEN i ELSE FindFrom(s, c, i + 1)
Find(s, c) == FindFrom(s, c, 1)
RECURSIVE FindBack(_, _, _)
FindBack(s, c, i) == IF i = 0 THEN 0 ELSE IF s[i] = c THEN i ELSE FindBack(s, c, i - 1)
FindLast(s, c) == FindBack(s, c, Len(s))

\* end of the maximal run of digits starting at i (index of first non-digit)
RECURSIVE DigitsEnd(_, _)
DigitsEnd(s, i) == IF i <= Len(s) /\ IsDigit(s[i]) THEN DigitsEnd(s, i + 1) ELSE i
RECURSIVE SkipC(_, _, _)
SkipC(s, c, i) == IF i <= Len(s) /\ s[i] = c THEN SkipC(s, c, i + 1) ELSE i

\* lexicographic comparison of byte strings: -1, 0, 1
RECURSIVE LexFrom(_, _, _)
LexFrom(a, b, i) ==
  IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1)
  ELSE IF i > Len(b) THEN 1
  ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE LexFrom(a, b, i + 1)
Lex(a, b) == LexFrom(a, b, 1)

\* --- hex ------------------------------------------------------------------
HexU == B("0123456789ABCDEF")
HexL == B("0123456789abcdef")
HexUpper(s) == [i \in 1..(2 * Len(s)) |->
                  LET b == s[(i + 1) \div 2] IN HexU[1 + (IF i % 2 = 1 THEN b \div 16 ELSE b % 16)]]
HexVal(c) == IF c >= 48 /\ c <= 57 THEN c - 48
             ELSE IF c >= 97 /\ c <= 102 THEN c - 87
             ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE -1
IsHex(s) == Len(s) % 2 = 0 /\ \A i \in 1..Len(s) : HexVal(s[i]) >= 0
UnHex(s) == [i \in 1..(Len(s) \div 2) |-> 16 * HexVal(s[2 * i - 1]) + HexVal(s[2 * i])]

\* --- outcomes of operations -------------------------------------------------
OK(o) == [ok |-> TRUE, out |-> o]        \* o: sequence of byte strings
FAIL == [ok |-> FALSE, out |-> <<>>]
Bit(b) == IF b THEN <<1>> ELSE <<0>>
=============================================================================
