------------------------------- MODULE Wire --------------------------------
(* Variable-length integers: seven bits per byte, low bits first, top bit    *)
(* set on every byte but the last.                                           *)
EXTENDS Num

\* groups of seven bits of a number, least significant group first
VarGroups(x) ==
  LET b == NumBits(x)
      n == (Len(b) + 6) \div 7
      p == Rep(0, 7 * n - Len(b)) \o b
  IN [i \in 1..n |-> BitsVal(SubSeq(p, 7 * (n - i) + 1, 7 * (n - i) + 7))]
RECURSIVE TrimHighZeros(_)
TrimHighZeros(g) == IF Len(g) > 1 /\ g[Len(g)] = 0 THEN TrimHighZeros(Take(g, Len(g) - 1)) ELSE g
VarEnc(x) == LET g == TrimHighZeros(VarGroups(x)) IN [i \in 1..Len(g) |-> IF i < Len(g) THEN g[i] + 128 ELSE g[i]]
VarU32(n) == VarEnc(NumW(n, 4))            \* of a small natural

\* decode at index i of s, at most mx bytes, into w bytes: [ok, v, next]
RECURSIVE VarEnd(_, _, _)
VarEnd(s, i, mx) == IF mx = 0 \/ i > Len(s) THEN 0 ELSE IF s[i] < 128 THEN i ELSE VarEnd(s, i + 1, mx - 1)
VarDec(s, i, mx, w) ==
  LET k == VarEnd(s, i, mx) IN
  IF k = 0 THEN [ok |-> FALSE, v |-> Zero(w), next |-> i]
  ELSE LET n == k - i + 1
           bits == Flat([j \in 1..n |-> BitsOf(s[k + 1 - j] % 128, 7)])
           full == Rep(0, 8 * w) \o bits
       IN [ok |-> TRUE, v |-> BitsNum(SubSeq(full, Len(full) - 8 * w + 1, Len(full))), next |-> k + 1]
Dec32(s, i) == VarDec(s, i, 5, 4)
Dec64(s, i) == VarDec(s, i, 10, 8)

\* zig-zag: (v << 1) xor (v >> 31)
ZigZag(v) == LET b == NumBits(v) IN BitsNum([i \in 1..32 |-> LET x == IF i = 32 THEN 0 ELSE b[i + 1] IN (x + b[1]) % 2])
UnZigZag(u) == LET b == NumBits(u) IN BitsNum([i \in 1..32 |-> LET x == IF i = 1 THEN 0 ELSE b[i - 1] IN (x + b[32]) % 2])
=============================================================================
