------------------------------ MODULE Machines -------------------------------
(***************************************************************************)
(* The three conversions as stack machines, one transition per JSON token   *)
(* or per visit of the innermost open container.  MC_Json and MC_Bin check   *)
(* them against the denotational Codec.                                     *)
(***************************************************************************)
EXTENDS Abi

\* frames of the three machines
Top(st) == st[Len(st)]
Pop(st) == Take(st, Len(st) - 1)

\* ================================================================ ordered JSON -> binary
(* [stack, want, out, ins, skipped, st]: want is <<>> or <<[t, ext]>>, a value that is *)
(* about to start; ins holds <<position, count>> of the arrays (counts are spliced in   *)
(* at the end); st is "run", "done" or "fail".                                         *)
OInit(t) == [stack |-> <<>>, want |-> <<[t |-> t, ext |-> TRUE]>>, out |-> <<>>, ins |-> <<>>, skipped |-> FALSE, st |-> "run"]
OFail(m) == [m EXCEPT !.st = "fail"]
OPush(m, f) == IF Len(m.stack) >= MaxOpen THEN OFail(m) ELSE [m EXCEPT !.stack = Append(@, f), !.want = <<>>]
ODone(m) == IF m.stack = <<>> /\ m.want = <<>> /\ m.st = "run" THEN [m EXCEPT !.st = "done"] ELSE m
RECURSIVE OStart(_, _, _, _, _)
OStart(env, m, t, ext, tok) ==
  LET y == Ent(env, t) IN
  CASE y.k = "builtin" -> LET r == ScalarIn(y.n, tok) IN IF r.ok THEN [m EXCEPT !.out = @ \o r.b, !.want = <<>>] ELSE OFail(m)
    [] y.k = "optional" -> IF tok.t = "null" THEN [m EXCEPT !.out = Append(@, 0), !.want = <<>>] ELSE OStart(env, [m EXCEPT !.out = Append(@, 1)], y.of, ext, tok)
    [] y.k = "extension" -> OStart(env, m, y.of, ext, tok)
    [] y.k = "struct" -> IF tok.t = "{" THEN OPush(m, [t |-> t, ext |-> ext, pos |-> 0, at |-> 0]) ELSE OFail(m)
    [] y.k = "array" -> IF tok.t = "[" THEN OPush([m EXCEPT !.ins = Append(@, <<Len(m.out), 0>>)], [t |-> t, ext |-> FALSE, pos |-> 0, at |-> Len(m.ins) + 1]) ELSE OFail(m)
    [] y.k = "variant" -> IF tok.t = "[" THEN OPush(m, [t |-> t, ext |-> ext, pos |-> 0, at |-> 0]) ELSE OFail(m)
\* one token
OStep(env, m, tok) ==
  IF m.st # "run" THEN OFail(m)
  ELSE IF m.want # <<>> THEN ODone(OStart(env, m, m.want[1].t, m.want[1].ext, tok))
  ELSE LET f == Top(m.stack)
           y == Ent(env, f.t)
           n == Len(m.stack)
           popped == [m EXCEPT !.stack = Pop(@)]
           moved == [m EXCEPT !.stack[n].pos = @ + 1]
       IN CASE y.k = "struct" ->
                 IF tok.t = "}" THEN
                   LET rest == (f.pos + 1)..Len(y.f) IN
                   IF rest # {} /\ ~(f.ext /\ \A j \in rest : IsExt(env, y.f[j].t)) THEN OFail(m)
                   ELSE ODone([popped EXCEPT !.skipped = @ \/ rest # {}])
                 ELSE \* a key
                   IF f.pos + 1 > Len(y.f) \/ m.skipped THEN OFail(m)
                   ELSE IF tok.v # y.f[f.pos + 1].n THEN OFail(m)
                   ELSE [moved EXCEPT !.want = <<[t |-> y.f[f.pos + 1].t, ext |-> f.ext /\ f.pos + 1 = Len(y.f)]>>]
            [] y.k = "array" ->
                 IF tok.t = "]" THEN ODone([popped EXCEPT !.ins[f.at][2] = f.pos])
                 ELSE ODone(OStart(env, moved, y.of, FALSE, tok))
            [] y.k = "variant" ->
                 IF tok.t = "]" THEN (IF f.pos = 2 THEN ODone(popped) ELSE OFail(m))
                 ELSE IF f.pos = 0 THEN
                   (IF tok.t \notin {"str", "num"} THEN OFail(m)
                    ELSE LET x == AltIndex(y.f, tok.v) IN IF x = 0 THEN OFail(m) ELSE [moved EXCEPT !.stack[n].at = x, !.out = @ \o VarU32(x - 1)])
                 ELSE IF f.pos = 1 THEN OStart(env, moved, y.f[f.at].t, f.ext, tok)
                 ELSE OFail(m)
\* the counts go in front of the elements
OResult(m) ==
  LET piece(i) == SubSeq(m.out, (IF i = 1 THEN 0 ELSE m.ins[i - 1][1]) + 1, m.ins[i][1]) \o VarU32(m.ins[i][2])
      n == Len(m.ins)
  IN Flat([i \in 1..n |-> piece(i)]) \o Drop(m.out, IF n = 0 THEN 0 ELSE m.ins[n][1])

\* ================================================================ JSON tree -> binary, members by name
(* A value is the index of its first event; a frame [t, ext, i, pos] visits it.  *)
RInit(env, t, e) == [stack |-> <<>>, out |-> <<>>, skipped |-> FALSE, st |-> "start", t |-> t]
RFail(m) == [m EXCEPT !.st = "fail"]
RPush(m, f) == [m EXCEPT !.stack = Append(@, f)]
\* number of elements of the array that opens at i, and the index of the j-th
RECURSIVE CountEl(_, _, _), ElAt(_, _, _)
CountEl(e, i, n) == IF e[i].t = "]" THEN n ELSE CountEl(e, ValueEnd(e, i), n + 1)
ElAt(e, i, j) == IF j = 1 THEN i ELSE ElAt(e, ValueEnd(e, i), j - 1)
RECURSIVE RStart(_, _, _, _, _, _)
RStart(env, e, m, t, ext, i) ==
  LET y == Ent(env, t) IN
  CASE y.k = "builtin" -> LET r == ScalarIn(y.n, e[i]) IN IF r.ok THEN [m EXCEPT !.out = @ \o r.b] ELSE RFail(m)
    [] y.k = "optional" -> IF e[i].t = "null" THEN [m EXCEPT !.out = Append(@, 0)] ELSE RStart(env, e, [m EXCEPT !.out = Append(@, 1)], y.of, ext, i)
    [] y.k = "extension" -> RStart(env, e, m, y.of, ext, i)
    [] y.k = "struct" -> IF e[i].t = "{" THEN RPush(m, [t |-> t, ext |-> ext, i |-> i, pos |-> 0]) ELSE RFail(m)
    [] y.k = "array" -> IF e[i].t = "[" THEN RPush([m EXCEPT !.out = @ \o VarU32(CountEl(e, i + 1, 0))], [t |-> t, ext |-> FALSE, i |-> i, pos |-> 0]) ELSE RFail(m)
    [] y.k = "variant" -> IF e[i].t # "[" THEN RFail(m) ELSE IF CountEl(e, i + 1, 0) # 2 THEN RFail(m) ELSE IF e[i + 1].t \notin {"str", "num"} THEN RFail(m)
                          ELSE RPush(m, [t |-> t, ext |-> ext, i |-> i, pos |-> 0])
RVisit(env, e, m) == \* the innermost container
  LET f == Top(m.stack)
      y == Ent(env, f.t)
      n == Len(m.stack)
      popped == [m EXCEPT !.stack = Pop(@)]
      moved == [m EXCEPT !.stack[n].pos = @ + 1]
      j == f.pos + 1
  IN CASE y.k = "struct" ->
            IF f.pos = Len(y.f) THEN popped
            ELSE LET x == MemberAt(MembersFrom(e, f.i + 1, <<>>).m, y.f[j].n) IN
                 IF x = 0 THEN (IF IsExt(env, y.f[j].t) /\ f.ext THEN [moved EXCEPT !.skipped = TRUE] ELSE RFail(m))
                 ELSE IF m.skipped THEN RFail(m)
                 ELSE RStart(env, e, moved, y.f[j].t, f.ext /\ j = Len(y.f), x)
       [] y.k = "array" -> IF f.pos = CountEl(e, f.i + 1, 0) THEN popped ELSE RStart(env, e, moved, y.of, FALSE, ElAt(e, f.i + 1, j))
       [] y.k = "variant" -> IF f.pos = 1 THEN popped
            ELSE LET x == AltIndex(y.f, e[f.i + 1].v) IN IF x = 0 THEN RFail(m) ELSE RStart(env, e, [moved EXCEPT !.out = @ \o VarU32(x - 1)], y.f[x].t, f.ext, f.i + 2)
RStep(env, e, m) ==
  LET r == IF m.st = "start" THEN RStart(env, e, [m EXCEPT !.st = "run"], m.t, TRUE, 1) ELSE RVisit(env, e, m) IN
  IF r.st = "run" /\ r.stack = <<>> THEN [r EXCEPT !.st = "done"] ELSE r
RECURSIVE RRun(_, _, _)
RRun(env, e, m) == IF m.st \in {"done", "fail"} THEN m ELSE RRun(env, e, RStep(env, e, m))

\* ================================================================ binary -> JSON
(* [stack, i, out, skipped, st]: out is the sequence of events written so far     *)
BInit(t) == [stack |-> <<>>, i |-> 1, out |-> <<>>, skipped |-> FALSE, st |-> "start", t |-> t]
BFail(m) == [m EXCEPT !.st = "fail"]
RECURSIVE BStart(_, _, _, _, _)
BStart(env, s, m, t, ext) ==
  LET y == Ent(env, t) IN
  CASE y.k = "builtin" -> LET r == ScalarOut(y.n, s, m.i) IN IF r.ok THEN [m EXCEPT !.out = Append(@, ScalarEv(y.n, r.b)), !.i = r.next] ELSE BFail(m)
    [] y.k = "optional" -> IF m.i > Len(s) THEN BFail(m) ELSE IF s[m.i] = 0 THEN [m EXCEPT !.out = Append(@, Ev("null")), !.i = @ + 1] ELSE BStart(env, s, [m EXCEPT !.i = @ + 1], y.of, ext)
    [] y.k = "extension" -> BStart(env, s, m, y.of, ext)
    [] y.k = "struct" -> [m EXCEPT !.stack = Append(@, [t |-> t, ext |-> ext, pos |-> 0, n |-> Len(y.f)]), !.out = Append(@, Ev("{"))]
    [] y.k = "array" -> LET c == Dec32(s, m.i) IN
         IF ~c.ok THEN BFail(m) ELSE IF ~FitsSmall(c.v) THEN BFail(m)
         ELSE [m EXCEPT !.stack = Append(@, [t |-> t, ext |-> FALSE, pos |-> 0, n |-> Small(c.v)]), !.i = c.next, !.out = Append(@, Ev("["))]
    [] y.k = "variant" -> [m EXCEPT !.stack = Append(@, [t |-> t, ext |-> ext, pos |-> 0, n |-> 1]), !.out = Append(@, Ev("["))]
BVisit(env, s, m) ==
  LET f == Top(m.stack)
      y == Ent(env, f.t)
      n == Len(m.stack)
      j == f.pos + 1
      popped(c) == [m EXCEPT !.stack = Pop(@), !.out = Append(@, Ev(c))]
      moved == [m EXCEPT !.stack[n].pos = @ + 1]
  IN CASE y.k = "struct" ->
            IF f.pos = f.n THEN popped("}")
            ELSE IF m.i > Len(s) /\ f.ext /\ IsExt(env, y.f[j].t) THEN [moved EXCEPT !.skipped = TRUE]
            ELSE IF m.skipped THEN BFail(m)
            ELSE BStart(env, s, [moved EXCEPT !.out = Append(@, EvK(Sane(y.f[j].n)))], y.f[j].t, f.ext /\ j = f.n)
       [] y.k = "array" -> IF f.pos = f.n THEN popped("]") ELSE BStart(env, s, moved, y.of, FALSE)
       [] y.k = "variant" ->
            IF f.pos = 1 THEN popped("]")
            ELSE LET c == Dec32(s, m.i) IN
                 IF ~c.ok THEN BFail(m) ELSE IF ~FitsSmall(c.v) \/ Small(c.v) >= Len(y.f) THEN BFail(m)
                 ELSE LET x == Small(c.v) + 1 IN BStart(env, s, [moved EXCEPT !.i = c.next, !.out = Append(@, EvS(Sane(y.f[x].n)))], y.f[x].t, f.ext)
BStep(env, s, m) ==
  LET r == IF m.st = "start" THEN BStart(env, s, [m EXCEPT !.st = "run"], m.t, TRUE) ELSE BVisit(env, s, m) IN
  IF r.st # "run" THEN r
  ELSE IF Len(r.stack) > MaxOpen THEN BFail(r)
  ELSE IF r.stack = <<>> THEN [r EXCEPT !.st = IF r.i = Len(s) + 1 THEN "done" ELSE "fail"] ELSE r

\* ================================================================ the caller's hook
(* It is called before every visit of a container: at least once per value inside of *)
(* one, with at most one scalar and what stands before it (a flag, a count, an index) *)
(* in between.                                                                          *)
RECURSIVE Inside(_), MaxLeaf(_)
SumOf(q) == FoldLeft(LAMBDA a, b : a + b, 0, q)
MaxOf(q) == FoldLeft(LAMBDA a, b : IF a > b THEN a ELSE b, 0, q)
Inside(v) == CASE v.k \in {"sc", "nil"} -> 0
               [] v.k = "some" -> Inside(v.v)
               [] v.k = "var" -> 1 + Inside(v.v)
               [] v.k = "arr" -> Len(v.a) + SumOf([i \in 1..Len(v.a) |-> Inside(v.a[i])])
               [] v.k = "obj" -> Len(v.f) + SumOf([i \in 1..Len(v.f) |-> Inside(v.f[i])])
MaxLeaf(v) == CASE v.k = "sc" -> Len(v.b)
               [] v.k = "nil" -> 0
               [] v.k \in {"some", "var"} -> MaxLeaf(v.v)
               [] v.k = "arr" -> MaxOf([i \in 1..Len(v.a) |-> MaxLeaf(v.a[i])])
               [] v.k = "obj" -> MaxOf([i \in 1..Len(v.f) |-> MaxLeaf(v.f[i])])
Gap == 16
=============================================================================
