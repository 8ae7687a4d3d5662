------------------------------ MODULE T_Varint ------------------------------
EXTENDS Wire, Conf
Used(s, d) == NumW(d.next - 1, 4)
VarintJudge(e) ==
  LET x == e.in[1] IN
  CASE e.op = "vu_enc" -> LET r == VarEnc(x) IN Is(e, OK(<<r, r, NumW(Len(r), 4), r, r>>))
    [] e.op = "vs_enc" -> LET r == VarEnc(ZigZag(x)) IN Is(e, OK(<<r, NumW(Len(r), 4)>>))
    [] e.op = "vu_enc64" -> IF IsZero(Drop(x, 4)) THEN Is(e, OK(<<VarEnc(Take(x, 4))>>)) ELSE Is(e, FAIL)
    [] e.op = "vu_dec" -> LET d == Dec32(x, 1) IN Is(e, IF d.ok THEN OK(<<d.v, Used(x, d), Drop(x, d.next - 1)>>) ELSE FAIL)
    [] e.op = "vu_obj_dec" -> LET d == Dec32(x, 1) IN Is(e, IF d.ok THEN OK(<<d.v, Used(x, d)>>) ELSE FAIL)
    [] e.op = "vs_dec" -> LET d == Dec32(x, 1) IN Is(e, IF d.ok THEN OK(<<UnZigZag(d.v), Used(x, d)>>) ELSE FAIL)
    [] e.op = "vu64_dec" -> LET d == Dec64(x, 1) IN Is(e, IF d.ok THEN OK(<<d.v, Used(x, d)>>) ELSE FAIL)
    \* a failed decode never moves past the end of the input
    [] e.op = "vu_fail_pos" -> LET d == Dec32(x, 1) IN
         Holds(e, e.st = "ok" /\ e.out[1] = Bit(d.ok) /\ Small(e.out[2]) <= Len(x), <<"position within the input">>)
    \* lengths inside larger data use the same code: string at the start of x
    [] e.op = "vu_string" -> LET d == Dec32(x, 1) fits == d.ok /\ FitsSmall(d.v) /\ Small(d.v) <= Len(x) - d.next + 1 IN
         Is(e, IF fits THEN OK(<<SubSeq(x, d.next, d.next - 1 + Small(d.v)), NumW(d.next - 1 + Small(d.v), 4)>>) ELSE FAIL)
=============================================================================
