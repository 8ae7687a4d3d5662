------------------------------- MODULE T_Convert -------------------------------
(***************************************************************************)
(* Conversions between related types, and types read as another one.        *)
(***************************************************************************)
EXTENDS T_Zoo
Pair(e, keep) ==
  LET s == e.in[1] d == e.in[2] v == ValueOf(s, e.in[4]) IN
  OK(<<Wire(Conv(ZEnv, s, d, v, IF e.in[5] = <<>> THEN Default(ZEnv, d) ELSE ValueOf(d, e.in[5]), keep)), Wire(v)>>)
\* elements of an array the destination already has: their other members may stay or start afresh
ConvertJudge(e) ==
  CASE e.op = "cv" -> LET w == Pair(e, FALSE) IN IF e.st = "ok" /\ e.out = w.out THEN Holds(e, TRUE, "") ELSE Is(e, Pair(e, TRUE))
    [] e.op = "cv_from" -> Is(e, FromBin(e.in[1], e.in[2]))
    [] e.op = "cv_cut" -> Is(e, Cut(e.in[1], e.in[2]))
    [] e.op = "cv_reuse" -> Is(e, Reuse(e.in[1], e.in[2]))
=============================================================================
