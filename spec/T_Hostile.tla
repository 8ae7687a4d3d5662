------------------------------- MODULE T_Hostile -------------------------------
(***************************************************************************)
(* What any input may cost: an answer (Conf refuses crashes and hangs), and   *)
(* memory in proportion to the texts that go in and come out.                 *)
(* Events carry sizes: e.size bytes in, e.got bytes out, e.mem KB at the peak.*)
(***************************************************************************)
EXTENDS Conf
Base == 1024          \* KB: contexts and their built-in types
PerByte == 400        \* bytes of memory for each byte of text (an empty action of 10 bytes becomes several strings and map nodes)
MayUse(n) == Base + (n \div 1024 + 1) * PerByte
HostileJudge(e) == Holds(e, e.mem <= MayUse(e.size + e.got), [mayUse |-> MayUse(e.size + e.got), used |-> e.mem])
=============================================================================
