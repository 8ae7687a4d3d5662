------------------------------ MODULE T_Streams -------------------------------
EXTENDS Streams, Conf
U32(n) == NumW(n, 4)
Flags(oks) == [i \in 1..Len(oks) |-> IF oks[i] THEN 1 ELSE 0]
\* kinds: 0 fixed, 1 size, 2 vector, 3..5 the same, pretty
OutJudge(e) ==
  LET kind == e.in[1][1]
      cap == IF kind % 3 = 0 THEN Small(e.in[2]) ELSE 0 - 1
      r == RunOut(OutNew(cap, kind >= 3), Drop(e.in, 2))
      content == CASE kind % 3 = 0 -> r.m.out \o Rep(238, Room(r.m)) [] kind % 3 = 1 -> <<>> [] OTHER -> r.m.out
  IN Is(e, OK(<<Flags(r.ok), Flat([i \in 1..Len(r.at) |-> U32(r.at[i])]), content>>))
\* the driver stops at the first failure of a read of several parts
RECURSIVE UpTo(_, _, _)
UpTo(ops, oks, i) == IF i > Len(ops) THEN Len(ops) ELSE IF ~oks[i] /\ ~Simple1(ops[i]) THEN i ELSE UpTo(ops, oks, i + 1)
InJudge(e) ==
  LET ops == Tail(e.in)
      r == RunIn(InNew(e.in[1]), ops)
      n == UpTo(ops, r.ok, 1)
      \* the position behind the last one is open if it failed
      open == n > 0 /\ ~r.ok[n] /\ ~Simple1(ops[n])
      at == Flat([i \in 1..(IF open THEN n - 1 ELSE n) |-> U32(r.at[i])])
  IN IF e.st # "ok" \/ Len(e.out) # 2 + n THEN Holds(e, FALSE, "answers")
     ELSE Holds(e, e.out[1] = Flags(Take(r.ok, n)) /\ Take(e.out[2], Len(at)) = at /\ Drop(e.out, 2) = Take(r.b, n), [ok |-> Flags(r.ok), b |-> r.b])
StreamsJudge(e) == CASE e.op = "out_seq" -> OutJudge(e) [] e.op = "in_seq" -> InJudge(e)
=============================================================================
