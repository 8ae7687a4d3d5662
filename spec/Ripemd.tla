------------------------------- MODULE Ripemd -------------------------------
(* RIPEMD-160 from its definition; words are pairs <<low 16 bits, high 16>>.   *)
EXTENDS Num

W(lo, hi) == <<lo, hi>>
WB(b) == <<b[1] + 256 * b[2], b[3] + 256 * b[4]>>                \* little-endian bytes
BW(w) == <<w[1] % 256, w[1] \div 256, w[2] % 256, w[2] \div 256>>
Pow == TLCEval([i \in 0..16 |-> 2 ^ i])
WAdd(a, b) == LET l == a[1] + b[1] IN <<l % 65536, (a[2] + b[2] + (l \div 65536)) % 65536>>
WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
WAnd(a, b) == <<a[1] & b[1], a[2] & b[2]>>
WOr(a, b) == <<a[1] | b[1], a[2] | b[2]>>
WNot(a) == <<65535 - a[1], 65535 - a[2]>>
WRol(w, s) == LET v == IF s >= 16 THEN <<w[2], w[1]>> ELSE w
                  r == s % 16
                  p == Pow[r] q == Pow[16 - r]
              IN IF r = 0 THEN v
                 ELSE <<((v[1] % q) * p) + (v[2] \div q), ((v[2] % q) * p) + (v[1] \div q)>>
F(j, x, y, z) == CASE j = 1 -> WXor(WXor(x, y), z)
                   [] j = 2 -> WOr(WAnd(x, y), WAnd(WNot(x), z))
                   [] j = 3 -> WXor(WOr(x, WNot(y)), z)
                   [] j = 4 -> WOr(WAnd(x, z), WAnd(y, WNot(z)))
                   [] j = 5 -> WXor(x, WOr(y, WNot(z)))
Rho == <<7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8>>
Pi == TLCEval([i \in 0..15 |-> (9 * i + 5) % 16])
\* message word index of step i of a line in round r (r = 1..5)
RECURSIVE RhoPow(_, _)
RhoPow(r, i) == IF r = 0 THEN i ELSE Rho[RhoPow(r - 1, i) + 1]
OrderL == TLCEval([r \in 1..5 |-> [i \in 0..15 |-> RhoPow(r - 1, i)]])
OrderR == TLCEval([r \in 1..5 |-> [i \in 0..15 |-> RhoPow(r - 1, Pi[i])]])
\* shift of message word k in round r
Shift == << <<11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8>>,
            <<12, 13, 11, 15, 6, 9, 9, 7, 12, 15, 11, 13, 7, 8, 7, 7>>,
            <<13, 15, 14, 11, 7, 7, 6, 8, 13, 14, 13, 12, 5, 5, 6, 9>>,
            <<14, 11, 12, 14, 8, 6, 5, 5, 15, 12, 15, 14, 9, 9, 8, 6>>,
            <<15, 12, 13, 13, 9, 5, 8, 6, 14, 11, 12, 11, 8, 6, 5, 5>> >>
KL == << <<0, 0>>, <<31129, 23170>>, <<60321, 28377>>, <<48348, 36635>>, <<64846, 43347>> >>
KR == << <<35814, 20642>>, <<53540, 23629>>, <<16115, 28016>>, <<30441, 31341>>, <<0, 0>> >>
Step(s, f, x, k, sh) == \* s = <<a, b, c, d, e>>
  LET t == WAdd(WRol(WAdd(WAdd(s[1], f), WAdd(x, k)), sh), s[5])
  IN <<s[5], t, s[2], WRol(s[3], 10), s[4]>>
Rounds == TLCEval([n \in 1..80 |-> LET r == 1 + ((n - 1) \div 16) i == (n - 1) % 16 IN
             [r |-> r, l |-> OrderL[r][i] + 1, rr |-> OrderR[r][i] + 1,
              sl |-> Shift[r][OrderL[r][i] + 1], sr |-> Shift[r][OrderR[r][i] + 1]]])
Compress(h, block) ==
  LET x == [i \in 1..16 |-> WB(SubSeq(block, 4 * i - 3, 4 * i))]
      step(s, n) ==
        LET p == Rounds[n] IN
        << Step(s[1], F(p.r, s[1][2], s[1][3], s[1][4]), x[p.l], KL[p.r], p.sl),
           Step(s[2], F(6 - p.r, s[2][2], s[2][3], s[2][4]), x[p.rr], KR[p.r], p.sr) >>
      z == FoldLeft(step, <<h, h>>, [n \in 1..80 |-> n])
      a == z[1] b == z[2]
  IN << WAdd(WAdd(h[2], a[3]), b[4]), WAdd(WAdd(h[3], a[4]), b[5]), WAdd(WAdd(h[4], a[5]), b[1]),
        WAdd(WAdd(h[5], a[1]), b[2]), WAdd(WAdd(h[1], a[2]), b[3]) >>
H0 == << <<8961, 26437>>, <<43913, 61389>>, <<56574, 39098>>, <<21622, 4146>>, <<57840, 50130>> >>
\* all full blocks of a message
Absorb(h, m) == FoldLeft(LAMBDA g, i : Compress(g, SubSeq(m, 64 * i - 63, 64 * i)), h, [i \in 1..(Len(m) \div 64) |-> i])
Pad(n, bitlen) == \* padding of a message whose last block holds n bytes
  <<128>> \o Rep(0, IF n < 56 THEN 55 - n ELSE 119 - n) \o bitlen
Finish160(h, tail, bitlen) == LET g == Absorb(h, tail \o Pad(Len(tail), bitlen)) IN Flat([i \in 1..5 |-> BW(g[i])])
Ripemd160(m) == LET k == 64 * (Len(m) \div 64) IN
  Finish160(Absorb(H0, m), Drop(m, k), MulAdd(NumW(Len(m), 8), 8, 0).v)
=============================================================================
