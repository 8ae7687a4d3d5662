-------------------------------- MODULE Conf --------------------------------
(***************************************************************************)
(* Trace validation of recorded calls.  The trace (one JSON object per     *)
(* call, recorded from the real code) is split into chunks, each an        *)
(* independent behaviour: one step consumes one event and asks the         *)
(* property's specification (Judge) whether it allows that event.  A       *)
(* crash, hang or memory blow-up is an event no specification allows.      *)
(***************************************************************************)
EXTENDS Bytes, Json, IOUtils

CONSTANT Judge(_)      \* event -> [pass, want]

Trace == ndJsonDeserialize(IOEnv.TRACE)
NChunks == atoi(IOEnv.NCHUNKS)
TraceLen == Len(Trace)

VARIABLES vChunk, vPos
vars == <<vChunk, vPos>>

Verdict(e) == IF e.st \in {"ok", "err"} THEN Judge(e) ELSE [pass |-> FALSE, want |-> "a result or an error"]
\* prints the rejection; the step is taken anyway so that the rest is checked
Accept(e) == LET v == Verdict(e) IN
  IF v.pass THEN TRUE
  ELSE PrintT("REJECT " \o ToString(e.id) \o " " \o ToJson(v.want))
Finish(c, p) == IF p + NChunks > TraceLen THEN PrintT("DONE " \o ToString(c)) ELSE TRUE

Init == vChunk \in 1..NChunks /\ vPos = vChunk - NChunks
Next == /\ vPos + NChunks <= TraceLen
        /\ vPos' = vPos + NChunks
        /\ vChunk' = vChunk
        /\ Accept(Trace[vPos'])
        /\ Finish(vChunk, vPos')
Spec == Init /\ [][Next]_vars

\* helpers for Judge: the call must behave as the function r = OK(outputs) / FAIL
Is(e, r) == [pass |-> (e.st = "ok") = r.ok /\ (r.ok => e.out = r.out), want |-> r]
Holds(e, p, what) == [pass |-> p, want |-> what]
=============================================================================
