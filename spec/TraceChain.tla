----------------------------- MODULE TraceChain -----------------------------
(* A recorded history of chains keeps the contract of Chain.tla.           *)
EXTENDS Chain, IOUtils, TLC
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == ChainInit("dec") /\ l = 1
StepOrReset(ev) == IF ev.op = "new" THEN ChainReset(ev.kind) ELSE ChainStep(ev)
Next == l <= Len(Trace) /\ l' = l + 1 /\ StepOrReset(Trace[l])
Spec == Init /\ [][Next]_<<chvars, l>>
Report == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
