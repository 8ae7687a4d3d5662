------------------------------ MODULE T_Ripemd ------------------------------
EXTENDS Ripemd, Conf
HOf(b) == [i \in 1..5 |-> WB(SubSeq(b, 4 * i - 3, 4 * i))]
RipemdJudge(e) ==
  LET a == e.in IN
  CASE e.op = "rmd" -> Is(e, OK(<<Ripemd160(Flat(a))>>))
    \* digest after each chunk: the state is not disturbed by taking digests
    [] e.op = "rmd_run" -> Is(e, OK([i \in 1..Len(a) |-> Ripemd160(Flat(Take(a, i)))]))
    \* a copied state goes on independently
    [] e.op = "rmd_fork" -> Is(e, OK(<<Ripemd160(a[1] \o a[2]), Ripemd160(a[1] \o a[3]), Ripemd160(a[1] \o a[2])>>))
    \* any chaining state, any bit count (lengths that cannot be fed byte by byte)
    [] e.op = "rmd_state" -> Is(e, OK(<<Finish160(HOf(a[1]), a[3], Add(a[2], MulAdd(NumW(Len(a[3]), 8), 8, 0).v))>>))
    \* a message too long to be digested here: in one piece as in many, and as from the chaining value before the last block
    [] e.op = "rmd_huge" ->
         IF e.st # "ok" \/ Len(e.out) # 3 THEN Is(e, OK(<<>>))
         ELSE LET d == Finish160(HOf(e.out[1]), Rep(0, a[1][1] % 64), MulAdd(a[1], 8, 0).v) IN Is(e, OK(<<e.out[1], d, d>>))
=============================================================================
