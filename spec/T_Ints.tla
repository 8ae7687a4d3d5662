------------------------------- MODULE T_Ints -------------------------------
EXTENDS Ints, Wire, Conf
R(p) == IF p.ok THEN OK(<<p.v>>) ELSE FAIL
Bin(x, tn) == IF tn = B("varuint32") THEN VarEnc(x) ELSE IF tn = B("varint32") THEN VarEnc(ZigZag(x)) ELSE x
IntsJudge(e) ==
  LET a == e.in IN
  CASE e.op = "int_from_json" -> Is(e, R(IntFromJson(a[2], IntTypeOf(a[1]))))
    [] e.op = "int_to_json" -> LET ty == IntTypeOf(a[1]) j == IntJson(a[2], ty) IN Is(e, OK(<<j, j, a[2]>>))
    [] e.op = "int_abi" -> LET p == IntFromJson(a[2], IntTypeOf(a[1])) IN
          Is(e, IF p.ok THEN OK(<<Bin(p.v, a[1]), Bin(p.v, a[1]), IntJson(p.v, IntTypeOf(a[1]))>>) ELSE FAIL)
    [] e.op = "dec_to_bin" -> LET w == a[1][1] IN
          Is(e, IF a[2] = <<>> \/ ~AllDigits(a[2]) THEN FAIL ELSE R(ParseDigits(a[2], w)))
    [] e.op = "bin_to_dec" -> Is(e, OK(<<DecText(a[1]), Bit(IsNeg(a[1])), Neg(a[1])>>))
=============================================================================
