----------------------------- MODULE TraceWriter ----------------------------
(* A recorded history of writers keeps the contract of Writer.tla.         *)
EXTENDS Writer, IOUtils, TLC
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == ContractInit("enc") /\ l = 1
StepOrReset(ev) == IF ev.op = "new" THEN ContractReset(ev.kind) ELSE Step(ev)
Next == l <= Len(Trace) /\ l' = l + 1 /\ StepOrReset(Trace[l])
Spec == Init /\ [][Next]_<<cvars, l>>
Report == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
