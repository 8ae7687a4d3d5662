------------------------------ MODULE Scalars -------------------------------
(* The built-in types of the ABI: JSON event <-> canonical bytes.              *)
EXTENDS JsonText, Names, Time, SymAsset, FloatText, Crypto

Scalars == IntNames \cup {"bool", "float32", "float64", "float128", "time_point", "time_point_sec", "block_timestamp_type", "name", "bytes", "string",
  "checksum160", "checksum256", "checksum512", "public_key", "private_key", "signature", "symbol", "symbol_code", "asset"}
ScalarOf == TLCEval([b \in {B(n) : n \in Scalars} |-> CHOOSE n \in Scalars : B(n) = b])
FixedLen == TLCEval([n \in {"float128", "checksum160", "checksum256", "checksum512"} |-> CASE n = "float128" -> 16 [] n = "checksum160" -> 20 [] n = "checksum256" -> 32 [] OTHER -> 64])
FmtOf(n) == IF n = "float32" THEN Fmt32 ELSE Fmt64
KeyFam == TLCEval([n \in {"public_key", "private_key", "signature"} |-> CASE n = "public_key" -> "pub" [] n = "private_key" -> "pvt" [] OTHER -> "sig"])

\* --- decimal to binary floating point: the nearest number, ties to even ---------
BitLen(x) == LET y == StripZ(x) IN IF y = <<>> THEN 0 ELSE 8 * (Len(y) - 1) + (CHOOSE k \in 1..8 : y[Len(y)] < 2 ^ k /\ y[Len(y)] >= 2 ^ (k - 1))
Quot(n, d) == LET w == IF Len(n) > Len(d) THEN Len(n) + 1 ELSE Len(d) + 1 r == DivMod(Ext(n, w), Ext(d, w)) IN [q |-> StripZ(r.q), r |-> StripZ(r.r)]
EncodeFloat(neg, m, q, f) == \* m < 2^p (m >= 2^(p-1) unless q = q0)
  LET nfr == f.p - 1
      bits == NumBits(Ext(m, 8))
      fr == SubSeq(bits, 65 - nfr, 64)
      norm == BitLen(m) = f.p
      e == IF norm THEN q - f.q0 + 1 ELSE 0
  IN BitsNum(<<IF neg THEN 1 ELSE 0>> \o BitsOf(e, f.eb) \o fr)
InfBits(neg, f) == BitsNum(<<IF neg THEN 1 ELSE 0>> \o Rep(1, f.eb) \o Rep(0, f.p - 1))
FloatBits(d, f) ==
  LET num0 == DigitsNum(d.ds)
      num == Times10(num0, Max0(d.e)) den == Times10(<<1>>, Max0(0 - d.e))
      lo == BitLen(num) - BitLen(den) - f.p
      q1 == IF lo < f.q0 THEN f.q0 ELSE lo
      \* the exponent is lo or lo + 1
      at(q) == Quot(Times2(num, Max0(0 - q)), Times2(den, Max0(q)))
      q == IF BitLen(at(q1).q) > f.p THEN q1 + 1 ELSE q1
      x == at(q)
      twice == CmpN(Grow(x.r, 2), Times2(den, Max0(q)))
      m0 == IF twice > 0 \/ (twice = 0 /\ ~Even(x.q)) THEN Bump(x.q, 1) ELSE x.q
      over == BitLen(m0) > f.p
      m == IF over THEN Times2(<<1>>, f.p - 1) ELSE m0
      qq == IF over THEN q + 1 ELSE q
  IN IF d.ds = <<>> \/ Mag(d) < -400 THEN [ok |-> TRUE, b |-> EncodeFloat(d.neg, <<>>, f.q0, f)]
     ELSE IF Mag(d) > 400 \/ Overflows(num0, d.e, f) THEN [ok |-> FALSE, b |-> <<>>]
     ELSE [ok |-> TRUE, b |-> EncodeFloat(d.neg, m, qq, f)]
FloatWord(t, f) == \* Infinity, -Infinity, NaN
  IF t = Infinity THEN InfBits(FALSE, f) ELSE IF t = MinusInfinity THEN InfBits(TRUE, f) ELSE BitsNum(<<0>> \o Rep(1, f.eb + 1) \o Rep(0, f.p - 2))

\* --- JSON event -> canonical bytes ------------------------------------------------
Yes(b) == [ok |-> TRUE, b |-> b]
No == [ok |-> FALSE, b |-> <<>>]
Whole(s, p) == IF p.ok /\ p.next = Len(s) + 1 THEN Yes(p.v) ELSE No
SizedV(b) == VarEnc(NumW(Len(b), 4)) \o b
ScalarIn(n, ev) ==
  IF n = "bool" THEN (IF ev.t = "true" THEN Yes(<<1>>) ELSE IF ev.t = "false" THEN Yes(<<0>>) ELSE No)
  ELSE IF ev.t \notin {"str", "num"} THEN No
  ELSE LET x == ev.v IN
  IF n \in IntNames THEN
       LET ty == IntTypes[n] p == ParseInt(x, ty.w, ty.s) IN
       IF ~p.ok THEN No ELSE Yes(IF n = "varuint32" THEN VarEnc(p.v) ELSE IF n = "varint32" THEN VarEnc(ZigZag(p.v)) ELSE p.v)
  ELSE CASE n \in {"float32", "float64"} ->
         LET f == FmtOf(n) d == Decimal(x) IN
         IF x \in {Infinity, MinusInfinity, NaN} THEN Yes(FloatWord(x, f)) ELSE IF d.ok THEN FloatBits(d, f) ELSE No
    [] n \in DOMAIN FixedLen -> IF Len(x) = 2 * FixedLen[n] /\ IsHex(x) THEN Yes(UnHex(x)) ELSE No
    [] n = "bytes" -> IF IsHex(x) THEN Yes(SizedV(UnHex(x))) ELSE No
    [] n = "string" -> Yes(SizedV(x))
    [] n = "time_point" -> LET p == ParseTime(x, 6) IN IF p.form THEN Yes(p.us) ELSE No
    [] n = "time_point_sec" -> LET p == ParseTime(x, -1) IN IF p.form /\ Fits32(p.sec) THEN Yes(Take(p.sec, 4)) ELSE No
    [] n = "block_timestamp_type" -> LET p == ParseTime(x, 6) IN IF p.form THEN Yes(Slot(p.us).slot) ELSE No
    [] n = "name" -> Yes(NameFromJson(x))
    [] n \in DOMAIN KeyFam -> LET p == KeyParse(KeyFam[n], x) IN IF p.ok THEN Yes(p.v) ELSE No
    [] n = "symbol" -> Whole(x, ParseSym(x))
    [] n = "symbol_code" -> Whole(x, ParseCode(x, 1))
    [] n = "asset" -> Whole(x, ParseAsset(x))
\* texts with an outcome this specification leaves open: dates that do not exist, instants outside of the type
ScalarOpen(n, ev) == ev.t \in {"str", "num"} /\
  CASE n \in {"time_point", "time_point_sec"} -> LET p == ParseTime(ev.v, IF n = "time_point" THEN 6 ELSE -1) IN p.form /\ ~p.fields
    [] n = "block_timestamp_type" -> LET p == ParseTime(ev.v, 6) IN p.form /\ (~p.fields \/ ~Slot(p.us).in)
    [] n \in {"float32", "float64"} -> ev.v \notin {Infinity, MinusInfinity, NaN} /\ Odd(ev.v)
    [] OTHER -> FALSE

\* --- bytes -> canonical bytes of the value starting at i -----------------------------
NoB(i) == [ok |-> FALSE, b |-> <<>>, next |-> i]
Fixed(s, i, n) == IF Len(s) - i + 1 < n THEN NoB(i) ELSE [ok |-> TRUE, b |-> SubSeq(s, i, i + n - 1), next |-> i + n]
Width == TLCEval([n \in {"bool", "float32", "float64", "float128", "time_point", "time_point_sec", "block_timestamp_type", "name", "checksum160", "checksum256", "checksum512", "symbol", "symbol_code", "asset"}
          \cup (IntNames \ {"varuint32", "varint32"}) |->
  IF n \in IntNames THEN IntTypes[n].w ELSE IF n \in DOMAIN FixedLen THEN FixedLen[n]
  ELSE CASE n = "bool" -> 1 [] n \in {"float32", "time_point_sec", "block_timestamp_type"} -> 4 [] n = "asset" -> 16 [] OTHER -> 8])
ScalarOut(n, s, i) ==
  IF n = "bool" THEN LET r == Fixed(s, i, 1) IN IF r.ok THEN [r EXCEPT !.b = IF @[1] = 0 THEN <<0>> ELSE <<1>>] ELSE r
  ELSE IF n \in DOMAIN Width THEN Fixed(s, i, Width[n])
  ELSE IF n \in {"varuint32", "varint32"} THEN LET d == Dec32(s, i) IN IF d.ok THEN [ok |-> TRUE, b |-> VarEnc(d.v), next |-> d.next] ELSE NoB(i)
  ELSE IF n \in {"bytes", "string"} THEN LET r == VarBytes(s, i, IF n = "bytes" THEN 10 ELSE 5, IF n = "bytes" THEN 8 ELSE 4) IN
         IF r.ok THEN [ok |-> TRUE, b |-> SizedV(r.b), next |-> r.next] ELSE NoB(i)
  ELSE KeyDecode(KeyFam[n], s, i)
\* the JSON event printed for canonical bytes; floats are given by their bits ("f32", "f64") since any correct spelling will do
Payload(b) == LET k == VarEnd(b, 1, 5) IN Drop(b, k)
EvAny == [t |-> "any", v |-> <<>>]
\* a symbol code with a zero byte inside has no text
Gapped(c) == ~IsZero(Drop(c, Len(CodeText(c))))
ScalarEv(n, b) ==
  CASE n = "bool" -> Ev(IF b = <<1>> THEN "true" ELSE "false")
    [] n \in IntNames -> LET ty == IntTypes[n]
         v == IF n = "varuint32" THEN Dec32(b, 1).v ELSE IF n = "varint32" THEN UnZigZag(Dec32(b, 1).v) ELSE b
         IN [t |-> IF ty.w > 4 THEN "str" ELSE "num", v |-> IntText(v, ty.s)]
    [] n = "float32" -> [t |-> "f32", v |-> b]
    [] n = "float64" -> [t |-> "f64", v |-> b]
    [] n \in DOMAIN FixedLen -> EvS(HexUpper(b))
    [] n = "bytes" -> EvS(HexUpper(Payload(b)))
    [] n = "string" -> EvS(Sane(Payload(b)))
    [] n = "time_point" -> IF Split(b).in THEN EvS(TimeText(b)) ELSE EvAny
    [] n = "time_point_sec" -> EvS(TimeText(SecUs(b)))
    [] n = "block_timestamp_type" -> EvS(TimeText(BlockUs(b)))
    [] n = "name" -> EvS(NameText(b))
    [] n \in DOMAIN KeyFam -> EvS(KeyText(KeyFam[n], b))
    [] n = "symbol" -> IF Gapped(Drop(b, 1)) THEN EvAny ELSE EvS(Sane(SymText(b)))
    [] n = "symbol_code" -> IF Gapped(b) THEN EvAny ELSE EvS(Sane(CodeText(b)))
    [] n = "asset" -> IF Gapped(Drop(b, 9)) THEN EvAny ELSE EvS(Sane(AssetText(Take(b, 8), Drop(b, 8))))
\* a printed event fits an expected one
EvFits(got, want) ==
  IF want.t \in {"f32", "f64"} THEN
    LET f == IF want.t = "f32" THEN Fmt32 ELSE Fmt64 v == BitsValue(want.v, f) IN
    IF v.kind = "nan" THEN got = EvS(NaN)
    ELSE IF v.kind = "inf" THEN got = EvS(IF v.neg THEN MinusInfinity ELSE Infinity)
    ELSE got.t = "num" /\ LET d == Decimal(got.v) IN d.ok /\ Len(got.v) <= 24 /\ ReadsAs(d, want.v, f)
  ELSE IF want.t = "any" THEN got.t = "str"
  ELSE got = want
EvsFit(got, want) == Len(got) = Len(want) /\ \A i \in 1..Len(got) : EvFits(got[i], want[i])
=============================================================================
