---------------------------- MODULE FixedBytes ------------------------------
(* A fixed-size byte value is just its n bytes; words are big-endian groups of *)
(* them, the last one padded with zero bytes.  Host words are little-endian.   *)
EXTENDS Num
Words(n, w) == (n + w - 1) \div w
\* bytes -> host representation of the array of w-byte words
ToWords(b, w) == LET k == Words(Len(b), w) p == b \o Rep(0, k * w - Len(b)) IN Flat([i \in 1..k |-> Rev(SubSeq(p, (i - 1) * w + 1, i * w))])
\* host words -> the n bytes, zero-filled or cut
FromWords(h, w, n) == LET s == Flat([i \in 1..(Len(h) \div w) |-> Rev(SubSeq(h, (i - 1) * w + 1, i * w))]) IN
  IF Len(s) >= n THEN Take(s, n) ELSE s \o Rep(0, n - Len(s))
CleanTail(h, w, n) == LET s == Flat([i \in 1..(Len(h) \div w) |-> Rev(SubSeq(h, (i - 1) * w + 1, i * w))]) IN Len(s) <= n \/ IsZero(Drop(s, n))
Rel(k) == <<Bit(k = 0), Bit(k # 0), Bit(k < 0), Bit(k > 0), Bit(k <= 0), Bit(k >= 0)>>
\* lexicographic combination of member comparisons
First(ks) == FoldLeft(LAMBDA a, k : IF a # 0 THEN a ELSE k, 0, ks)
RECURSIVE SLex(_, _, _)
SLex(a, b, i) == \* signed bytes
  IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1) ELSE IF i > Len(b) THEN 1
  ELSE LET k == SCmp(<<a[i]>>, <<b[i]>>) IN IF k # 0 THEN k ELSE SLex(a, b, i + 1)
=============================================================================
