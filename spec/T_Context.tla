------------------------------ MODULE T_Context -------------------------------
(* Recorded sessions: each is a behaviour of a set of contexts, one call a step. *)
EXTENDS Context, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
NChunks == atoi(IOEnv.NCHUNKS)
TraceLen == Len(Trace)
AbiList == JsonDeserialize(IOEnv.ABIS)          \* [fmt, data]
DefOf(f, data) == CASE f = B("set_abi") -> AbiOfJson(data)
                    [] f = B("set_abi_bin") -> AbiOfBin(data)
                    [] f = B("set_abi_hex") -> IF IsHex(data) THEN AbiOfBin(UnHex(data)) ELSE NoDef
LoadedOf(x) == LET r == DefOf(x[1], x[2]) m == MeaningOf(r) IN IF m.ok THEN [ok |-> TRUE, d |-> r.d, env |-> m.env] ELSE [ok |-> FALSE]
Loaded == TLCEval([i \in 1..Len(AbiList) |-> LoadedOf(AbiList[i])])

\* (any other number is the null context)
NCtx == 16
VARIABLES vChunk, vPos, vStep, vCtxs, vHeld
vars == <<vChunk, vPos, vStep, vCtxs, vHeld>>
Fresh == [i \in 0..NCtx - 1 |-> NewCtx]
Init == vChunk \in 1..NChunks /\ vPos = vChunk /\ vStep = 0 /\ vCtxs = Fresh /\ vHeld = {}
LoadFor(call) == IF call.op \in Loads THEN Loaded[call.ref] ELSE [ok |-> FALSE]
Reject(e, k, want) == PrintT("REJECT " \o ToString(e.id) \o " " \o ToJson([call |-> k, want |-> want]))
\* a failed call has an error text
Fine(c, call, got) == /\ ~got.ok => got.err
                      /\ Allowed(c, call, LoadFor(call), got)
\* what the contexts have handed out, as it reads after each call: only the context of the call may
\* have changed what is to be read from it.  Calls of different threads are listed one thread after the
\* other (they use different contexts, so any order explains them); a thread sees its own contexts only.
Others(looks, k) == {x \in looks : x[1] # k}
Stays(e, i, call) ==
  LET before == IF i = 1 \/ (i > 1 /\ e.calls[i - 1].grp # call.grp) THEN {} ELSE vHeld IN
  Others({x : x \in ToSet(e.answers[i].look)}, call.ctx) = Others(before, call.ctx)
CallStep ==
  /\ vPos <= TraceLen
  /\ LET e == Trace[vPos] IN
     /\ vStep < Len(e.calls)
     /\ LET call == e.calls[vStep + 1]
            got == e.answers[vStep + 1]
            null == call.ctx >= NCtx
            stays == Stays(e, vStep + 1, call)
            good == e.st = "ok" /\ stays /\ (IF null THEN AllowedNull(call, got) ELSE Fine(vCtxs[call.ctx], call, got))
        IN /\ IF good THEN TRUE ELSE Reject(e, vStep + 1, IF e.st = "ok" /\ ~stays THEN "what other contexts handed out unchanged" ELSE "an answer that the ABIs in force allow")
           /\ vStep' = IF good THEN vStep + 1 ELSE Len(e.calls)
           /\ vCtxs' = IF good /\ ~null THEN [vCtxs EXCEPT ![call.ctx] = After(@, call, LoadFor(call), got)] ELSE vCtxs
           /\ vHeld' = ToSet(got.look)
  /\ UNCHANGED <<vChunk, vPos>>
NextSession ==
  /\ vPos <= TraceLen
  /\ vStep = Len(Trace[vPos].calls)
  /\ vPos' = vPos + NChunks /\ vStep' = 0 /\ vCtxs' = Fresh /\ vHeld' = {} /\ vChunk' = vChunk
  /\ IF vPos' > TraceLen THEN PrintT("DONE " \o ToString(vChunk)) ELSE TRUE
Next == CallStep \/ NextSession
Spec == Init /\ [][Next]_vars
=============================================================================
