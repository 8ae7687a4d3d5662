------------------------------ MODULE T_Float -------------------------------
EXTENDS FloatText, Ints, Conf
F(b) == IF b = B("float32") THEN Fmt32 ELSE Fmt64
Q(t) == <<34>> \o t \o <<34>>
\* text t (already unquoted) read as the bits e.out[1], or refused
ReadJudge(e, t, f) ==
  LET d == Decimal(t) IN
  IF t \in {Infinity, MinusInfinity} THEN
    Holds(e, e.st = "ok" /\ LET v == BitsValue(e.out[1], f) IN v.kind = "inf" /\ v.neg = (t = MinusInfinity), "infinity")
  ELSE IF t = NaN THEN Holds(e, e.st = "ok" /\ BitsValue(e.out[1], f).kind = "nan", "nan")
  ELSE IF ~d.ok THEN (IF Odd(t) THEN Holds(e, TRUE, <<>>) ELSE Is(e, FAIL))
  ELSE IF TooBig(d, f) THEN Is(e, FAIL)
  ELSE Holds(e, e.st = "ok" /\ ReadsAs(d, e.out[1], f), "the nearest number")
\* printed text
PrintOK(t, bits, f) ==
  LET v == BitsValue(bits, f) IN
  CASE v.kind = "nan" -> t = Q(NaN)
    [] v.kind = "inf" -> t = Q(IF v.neg THEN MinusInfinity ELSE Infinity)
    [] OTHER -> LET d == Decimal(t) IN Len(t) <= 24 /\ JsonNumber(t) /\ d.ok /\ ReadsAs(d, bits, f)
FloatJudge(e) ==
  LET a == e.in f == F(a[1]) IN
  CASE e.op \in {"flt_parse", "flt_abi"} ->
         LET t == Trim(a[2]) IN
         IF Len(t) >= 2 /\ t[1] = 34 /\ t[Len(t)] = 34 THEN ReadJudge(e, SubSeq(t, 2, Len(t) - 1), f)
         ELSE IF JsonNumber(t) THEN ReadJudge(e, t, f) ELSE Is(e, FAIL)
    [] e.op = "flt_print" ->
         \* text, pretty text, text of the ABI conversion; bits read back by each reader
         LET v == BitsValue(a[2], f) IN
         Holds(e, /\ e.st = "ok" /\ Len(e.out) = 5
                  /\ PrintOK(e.out[1], a[2], f) /\ e.out[2] = e.out[1] /\ e.out[3] = e.out[1]
                  /\ \A k \in {4, 5} : IF v.kind = "nan" THEN BitsValue(e.out[k], f).kind = "nan" ELSE e.out[k] = a[2],
               "text that reads back as the number")
=============================================================================
