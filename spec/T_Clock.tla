------------------------------ MODULE T_Clock ------------------------------
(* A recorded history of commands against the registers of Clock. *)
EXTENDS Clock, Conf
RECURSIVE Walk(_, _, _, _)
Walk(cmds, k, g, acc) ==
  IF k > Len(cmds) THEN acc
  ELSE LET r == Step(g, cmds[k], cmds[k + 1][1], cmds[k + 1][2], cmds[k + 2]) IN
       IF ~r.def THEN acc ELSE Walk(cmds, k + 3, r.s, Append(acc, Seen(r)))
ClockJudge(e) ==
  LET w == Walk(e.in, 1, ClockInit, <<>>) IN
  Holds(e, e.st = "ok" /\ 3 * Len(e.out) = Len(e.in) /\ Take(e.out, Len(w)) = w, w)
=============================================================================
