------------------------------- MODULE Crypto -------------------------------
(* Base58, and the texts of keys and signatures: prefix, Base58 of the bytes   *)
(* and of the first four bytes of RIPEMD-160 over the bytes and the kind.      *)
EXTENDS Ripemd, Wire

B58Chars == B("123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz")
B58Val == TLCEval([c \in Byte |-> IF \E i \in 1..58 : B58Chars[i] = c THEN (CHOOSE i \in 1..58 : B58Chars[i] = c) - 1 ELSE -1])
IsB58(s) == \A i \in 1..Len(s) : B58Val[s[i]] >= 0
RECURSIVE StripHigh(_)
StripHigh(x) == IF Len(x) > 0 /\ x[Len(x)] = 0 THEN StripHigh(Take(x, Len(x) - 1)) ELSE x
\* three digits at a time
B58Decode(s) ==
  LET n1 == SkipC(s, 49, 1) - 1
      k == (Len(s) + 2) \div 3
      p == Rep(49, 3 * k - Len(s)) \o s
      v == FoldLeft(LAMBDA x, i : MulAdd(x, 195112, (B58Val[p[3 * i - 2]] * 58 + B58Val[p[3 * i - 1]]) * 58 + B58Val[p[3 * i]]).v,
                    Zero(Len(s) + 1), [i \in 1..k |-> i])
  IN Rep(0, n1) \o Rev(StripHigh(v))
Digits3(r) == <<B58Chars[1 + (r \div 3364)], B58Chars[1 + ((r \div 58) % 58)], B58Chars[1 + (r % 58)]>>
RECURSIVE B58Num(_)
B58Num(x) == IF IsZero(x) THEN <<>> ELSE LET d == DivSmall(x, 195112) IN B58Num(StripHigh(d.q)) \o Digits3(d.r)
B58Encode(b) ==
  LET n0 == SkipC(b, 0, 1) - 1
      t == B58Num(Rev(b))
  IN Rep(49, n0) \o Drop(t, SkipC(t, 49, 1) - 1)

\* --- keys and signatures ------------------------------------------------------
KindNames == TLCEval(<<B("K1"), B("R1"), B("WA")>>)
KindPrefix == TLCEval([pub |-> B("PUB_"), pvt |-> B("PVT_"), sig |-> B("SIG_")])
KindCount == [pub |-> 3, pvt |-> 2, sig |-> 3]
KeyLen == [pub |-> 33, pvt |-> 32, sig |-> 65]
Check4(b, suffix) == Take(Ripemd160(b \o suffix), 4)
WithCheck(prefix, b, suffix) == prefix \o B58Encode(b \o Check4(b, suffix))
\* a variable-length byte string at i: [ok, b, next]; lengths are spelled in up to mx bytes
VarBytes(s, i, mx, w) ==
  LET d == VarDec(s, i, mx, w) IN
  IF ~d.ok \/ ~FitsSmall(d.v) \/ Small(d.v) > Len(s) - d.next + 1 THEN [ok |-> FALSE, b |-> <<>>, next |-> i]
  ELSE [ok |-> TRUE, b |-> SubSeq(s, d.next, d.next + Small(d.v) - 1), next |-> d.next + Small(d.v)]
Sized(b) == VarEnc(NumW(Len(b), 4)) \o b
\* the value of kind fam/idx whose encoding starts at i: [ok, b (canonical), next]
NoVal(i) == [ok |-> FALSE, b |-> <<>>, next |-> i]
KeyBody(fam, idx, s, i) ==
  LET n == KeyLen[fam] IN
  IF Len(s) - i + 1 < n THEN NoVal(i)
  ELSE IF idx < 2 THEN [ok |-> TRUE, b |-> SubSeq(s, i, i + n - 1), next |-> i + n]
  ELSE IF fam = "pub" THEN
    IF Len(s) - i < n THEN NoVal(i)
    ELSE LET r == VarBytes(s, i + n + 1, 5, 4) IN
         IF ~r.ok THEN NoVal(i) ELSE [ok |-> TRUE, b |-> SubSeq(s, i, i + n) \o Sized(r.b), next |-> r.next]
  ELSE LET a == VarBytes(s, i + n, 10, 8) c == VarBytes(s, a.next, 5, 4) IN
       IF ~a.ok \/ ~c.ok THEN NoVal(i) ELSE [ok |-> TRUE, b |-> SubSeq(s, i, i + n - 1) \o Sized(a.b) \o Sized(c.b), next |-> c.next]
\* wire form: kind index, then the body
KeyDecode(fam, s, i) ==
  LET d == Dec32(s, i) IN
  IF ~d.ok \/ ~FitsSmall(d.v) \/ Small(d.v) >= KindCount[fam] THEN NoVal(i)
  ELSE LET r == KeyBody(fam, Small(d.v), s, d.next) IN IF r.ok THEN [r EXCEPT !.b = <<Small(d.v)>> \o @] ELSE NoVal(i)
KeyText(fam, v) == LET k == KindNames[v[1] + 1] IN WithCheck(KindPrefix[fam] \o k \o <<95>>, Drop(v, 1), k)
\* texts
NoKey == [ok |-> FALSE, v |-> <<>>]
Checked(fam, idx, t, suffix) ==
  IF ~IsB58(t) THEN NoKey
  ELSE LET w == B58Decode(t) n == Len(w) - 4 b == Take(w, n) IN
       IF n < 1 THEN NoKey
       ELSE IF Drop(w, n) # Check4(b, suffix) THEN NoKey
       ELSE LET r == KeyBody(fam, idx, b, 1) IN
            IF r.ok /\ r.next = n + 1 THEN [ok |-> TRUE, v |-> <<idx>> \o r.b] ELSE NoKey
\* the wallet import format carries a version byte and an unchecked trailer
Wif(t) == IF ~IsB58(t) THEN NoKey
          ELSE LET w == B58Decode(t) IN IF Len(w) < 37 THEN NoKey ELSE [ok |-> TRUE, v |-> <<0>> \o SubSeq(w, 2, 33)]
KeyParse(fam, s) ==
  LET hits == {i \in 1..KindCount[fam] : Starts(s, KindPrefix[fam] \o KindNames[i] \o <<95>>)} IN
  IF fam = "pub" /\ Starts(s, B("EOS")) THEN Checked("pub", 0, Drop(s, 3), <<>>)
  ELSE IF hits # {} THEN LET i == CHOOSE i \in hits : TRUE IN Checked(fam, i - 1, Drop(s, 7), KindNames[i])
  ELSE IF fam = "pvt" /\ ~Starts(s, B("PVT_")) THEN Wif(s) ELSE NoKey
=============================================================================
