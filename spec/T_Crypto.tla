------------------------------ MODULE T_Crypto ------------------------------
EXTENDS Crypto, Conf
Fam(b) == IF b = B("pub") THEN "pub" ELSE IF b = B("pvt") THEN "pvt" ELSE "sig"
CryptoJudge(e) ==
  LET a == e.in IN
  CASE e.op = "b58_enc" -> LET t == B58Encode(a[1]) IN Is(e, OK(<<t, a[1]>>))
    [] e.op = "b58_dec" -> IF ~IsB58(a[1]) THEN Is(e, FAIL) ELSE LET b == B58Decode(a[1]) IN
         IF B58Encode(b) # a[1] THEN Holds(e, FALSE, "specification: not a bijection") ELSE Is(e, OK(<<b>>))
    [] e.op = "key_print" -> LET t == KeyText(Fam(a[1]), a[2]) q == <<34>> \o t \o <<34>> IN Is(e, OK(<<t, q, a[2], a[2], q, a[2]>>))
    [] e.op \in {"key_parse", "key_abi"} -> LET p == KeyParse(Fam(a[1]), a[2]) IN Is(e, IF p.ok THEN OK(<<p.v>>) ELSE FAIL)
    [] e.op = "key_decode" -> LET r == KeyDecode(Fam(a[1]), a[2], 1) IN
         Is(e, IF r.ok THEN OK(<<r.b, NumW(Len(a[2]) - r.next + 1, 4)>>) ELSE FAIL)
=============================================================================
