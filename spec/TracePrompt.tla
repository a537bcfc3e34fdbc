----------------------------- MODULE TracePrompt ----------------------------
(* A recorded history of readers keeps the contract of Reader.tla, and its *)
(* readers are prompt (C26).                                               *)
EXTENDS Reader, IOUtils, TLC
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == ContractInit("dec") /\ l = 1
StepOrReset(ev) ==
    IF ev.op = "new" THEN ContractReset(ev.kind)
    ELSE Step(ev) /\ (ev.op = "src" => MaySupply)
Next == l <= Len(Trace) /\ l' = l + 1 /\ StepOrReset(Trace[l])
Spec == Init /\ [][Next]_<<cvars, l>>
Report == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
