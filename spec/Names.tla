------------------------------- MODULE Names -------------------------------
(* EOSIO names: 13 characters of 5 bits (the last one of 4) in 64 bits.     *)
EXTENDS Num

NameChars == B(".12345abcdefghijklmnopqrstuvwxyz")
\* value of a character, -1 if it is not in the alphabet
NameDigit(c) == IF c = 46 THEN 0 ELSE IF c >= 49 /\ c <= 53 THEN c - 48
                ELSE IF c >= 97 /\ c <= 122 THEN c - 91 ELSE -1
Lenient(c) == LET d == NameDigit(c) IN IF d < 0 THEN 0 ELSE d
\* 13 character values to the 64-bit value
Pack(ds) == BitsNum(Flat([i \in 1..13 |-> BitsOf(ds[i], IF i = 13 THEN 4 ELSE 5)]))
Unpack(v) == LET b == NumBits(v) IN
  [i \in 1..13 |-> IF i = 13 THEN BitsVal(SubSeq(b, 61, 64)) ELSE BitsVal(SubSeq(b, 5 * i - 4, 5 * i))]
NameOf(s) == Pack([i \in 1..13 |-> IF i > Len(s) THEN 0 ELSE IF i = 13 THEN Lenient(s[i]) % 16 ELSE Lenient(s[i])])
StrictOK(s) == /\ Len(s) <= 13
               /\ \A i \in 1..Len(s) : NameDigit(s[i]) >= 0
               /\ Len(s) = 13 => NameDigit(s[13]) <= 15
RECURSIVE TrimDots(_)
TrimDots(s) == IF Len(s) > 0 /\ s[Len(s)] = 46 THEN TrimDots(Take(s, Len(s) - 1)) ELSE s
NameText(v) == LET d == Unpack(v) IN TrimDots([i \in 1..13 |-> NameChars[d[i] + 1]])
StrictName(s) == IF StrictOK(s) THEN OK(<<NameOf(s)>>) ELSE FAIL

\* prefix / suffix are about the printed text: around its last dot
NamePrefix(v) == LET t == NameText(v) k == FindLast(t, 46) IN IF k = 0 THEN v ELSE NameOf(Take(t, k - 1))
NameSuffix(v) == LET t == NameText(v) k == FindLast(t, 46) IN IF k = 0 THEN v ELSE NameOf(Drop(t, k))
\* order of texts with '.' lowest = order of the 13 character values
NameOrder(a, b) == Lex(Unpack(a), Unpack(b))

\* --- names written as arbitrary text in JSON: invalid ones are hashed ---------
Mul64(x, y) == MulMod(x, y)
Xor8(x, y) == [i \in 1..Len(x) |-> x[i] ^^ y[i]]
ShiftR47(v) == LET b == NumBits(v) IN BitsNum(Rep(0, 47) \o Take(b, 17))
ShiftMix(v) == Xor8(v, ShiftR47(v))
MurMul == <<149, 233, 209, 91, 147, 167, 164, 198>>          \* 0xc6a4a7935bd1e995
MurSeed == <<0, 13, 208, 173, 11, 0, 0, 0>>                  \* 0xbadd00d00
\* eight bytes: every byte is or-ed in sign-extended, then shifted up
MurLoad(p) == LET step(r, c) == LET o == Take([i \in 1..8 |-> IF i = 1 THEN r[1] | c ELSE IF c >= 128 THEN 255 ELSE r[i]], 8)
                                IN <<0>> \o Take(o, 7)
              IN FoldLeft(step, Zero(8), p)
Murmur64(s) ==
  LET n == Len(s) \div 8
      h0 == Xor8(MurSeed, Mul64(NumW(Len(s), 8), MurMul))
      blk(h, i) == Mul64(Xor8(h, Mul64(ShiftMix(Mul64(MurLoad(SubSeq(s, 8 * i - 7, 8 * i)), MurMul)), MurMul)), MurMul)
      h1 == FoldLeft(blk, h0, [i \in 1..n |-> i])
      h2 == IF Len(s) % 8 = 0 THEN h1 ELSE Mul64(Xor8(h1, Ext(Drop(s, 8 * n), 8)), MurMul)
  IN ShiftMix(Mul64(ShiftMix(h2), MurMul))
NameFromJson(s) == IF StrictOK(s) THEN NameOf(s) ELSE Murmur64(s)
=============================================================================
