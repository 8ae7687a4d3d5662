----------------------------- MODULE T_Together -----------------------------
(* Operations without shared state: on every thread the result is that of one thread alone. *)
EXTENDS Conf
TogetherJudge(e) == Holds(e, e.st = "ok" /\ Len(e.out) > 0 /\ \A i \in 1..Len(e.out) : e.out[i] = <<1>>, <<"the same on every thread">>)
=============================================================================
