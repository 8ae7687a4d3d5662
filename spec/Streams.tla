------------------------------- MODULE Streams --------------------------------
(***************************************************************************)
(* The byte streams as state machines, one transition per call.             *)
(*                                                                         *)
(* Output: [cap, out, ind]: cap -1 for no limit.  A write is done entirely  *)
(* or, with an error, not at all.  Pretty streams add line breaks and       *)
(* indentation where the others write nothing.                              *)
(* Input: [data, pos]: bytes taken so far.  A read delivers exactly the     *)
(* next bytes, or fails and moves nothing.  Sizes are 64 bit.               *)
(***************************************************************************)
EXTENDS Scalars
Res(ok, m, b) == [ok |-> ok, m |-> m, b |-> b]
\* ------------------------------------------------------------------ output
OutNew(cap, pretty) == [cap |-> cap, out |-> <<>>, ind |-> 0, pretty |-> pretty]
Room(m) == m.cap - Len(m.out)
OWrite(m, b) == IF m.cap >= 0 /\ Len(b) > Room(m) THEN Res(FALSE, m, <<>>) ELSE Res(TRUE, [m EXCEPT !.out = @ \o b], <<>>)
\* a size8 of bytes
OHuge(m, n8) == IF m.cap >= 0 /\ Cmp(n8, NumW(Room(m), 8)) > 0 THEN Res(FALSE, m, <<>>) ELSE Res(TRUE, m, <<>>)
OutStep(m, op) ==
  LET k == op[1] b == Tail(op) IN
  CASE k \in {99, 119, 97, 114} -> OWrite(m, b)                                   \* c w a r
    [] k = 104 -> OHuge(m, b)                                                     \* h
    [] k = 43 -> Res(TRUE, IF m.pretty THEN [m EXCEPT !.ind = @ + 4] ELSE m, <<>>) \* +
    [] k = 45 -> IF ~m.pretty THEN Res(TRUE, m, <<>>) ELSE IF m.ind < 4 THEN Res(FALSE, m, <<>>) ELSE Res(TRUE, [m EXCEPT !.ind = @ - 4], <<>>) \* -
    [] k = 110 -> IF ~m.pretty THEN Res(TRUE, m, <<>>) ELSE LET x == OWrite(m, <<10>>) IN IF x.ok THEN OWrite(x.m, Rep(32, m.ind)) ELSE x \* n
    [] k = 58 -> OWrite(m, IF m.pretty THEN <<58, 32>> ELSE <<58>>)                \* :
\* ------------------------------------------------------------------ input
InNew(d) == [data |-> d, pos |-> 0]
Left(m) == Len(m.data) - m.pos
Has8(m, n8) == Cmp(n8, NumW(Left(m), 8)) <= 0
IRead(m, n8) == IF ~Has8(m, n8) THEN Res(FALSE, m, <<>>) ELSE LET n == Small(n8) IN Res(TRUE, [m EXCEPT !.pos = @ + n], SubSeq(m.data, m.pos + 1, m.pos + n))
IMove(m, next, b) == Res(TRUE, [m EXCEPT !.pos = next - 1], b)
InStep(m, op) ==
  LET k == op[1] b == Tail(op) i == m.pos + 1 IN
  CASE k \in {114, 117} -> IRead(m, b)                                            \* r u: read, read_reuse_storage
    [] k = 115 -> LET x == IRead(m, b) IN Res(x.ok, x.m, <<>>)                     \* s: skip
    [] k = 107 -> Res(Has8(m, b), m, <<>>)                                         \* k: check_available
    [] k = 109 -> Res(TRUE, m, NumW(Left(m), 8))                                   \* m: remaining
    [] k = 119 -> IRead(m, NumW(b[1], 8))                                          \* w: read_raw of 1, 2, 4, 8 bytes
    [] k = 118 -> LET d == Dec32(m.data, i) IN IF d.ok THEN IMove(m, d.next, d.v) ELSE Res(FALSE, m, <<>>)      \* v
    [] k = 86 -> LET d == Dec64(m.data, i) IN IF d.ok THEN IMove(m, d.next, d.v) ELSE Res(FALSE, m, <<>>)       \* V
    [] k \in {83, 87} -> LET d == VarBytes(m.data, i, 5, 4) IN IF d.ok THEN IMove(m, d.next, d.b) ELSE Res(FALSE, m, <<>>)  \* S W: string, string_view
    [] k = 122 -> LET d == VarBytes(m.data, i, 10, 8) IN IF d.ok THEN IMove(m, d.next, d.b) ELSE Res(FALSE, m, <<>>)        \* z: input_stream
\* reads of several parts may have moved when they fail
Simple1(op) == op[1] \in {114, 117, 115, 107, 109, 119}
\* ------------------------------------------------------------------ histories
RECURSIVE RunOps(_, _, _, _, _)
\* step(m, op) for every op: [m, ok: results, b: answers, at: a measure after each]
RunOps(step(_, _), measure(_), m, ops, acc) ==
  IF ops = <<>> THEN [m |-> m, ok |-> acc.ok, b |-> acc.b, at |-> acc.at]
  ELSE LET x == step(m, ops[1]) IN
       RunOps(step, measure, x.m, Tail(ops), [ok |-> Append(acc.ok, x.ok), b |-> Append(acc.b, x.b), at |-> Append(acc.at, measure(x.m))])
NoAcc == [ok |-> <<>>, b |-> <<>>, at |-> <<>>]
RunOut(m, ops) == RunOps(OutStep, LAMBDA x : Len(x.out), m, ops, NoAcc)
RunIn(m, ops) == RunOps(InStep, LAMBDA x : x.pos, m, ops, NoAcc)
=============================================================================
