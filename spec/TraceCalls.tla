----------------------------- MODULE TraceCalls -----------------------------
(* A recorded history of calls keeps the contract of Calls.tla.            *)
EXTENDS Api, TLC, IOUtils
VARIABLES held, busy, l
C == INSTANCE Calls WITH Expect <- Api
Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == C!ContractInit /\ l = 1
StepOrReset(ev) ==
    IF ev.op = "new" THEN held' = C!Nothing /\ busy' = C!Nothing
    ELSE IF ev.op = "call"     \* a begin and its end, nothing between
    THEN /\ ev.arg # 0 => ev.arg \in DOMAIN held /\ ev.a = <<held[ev.arg]>>
         /\ LET x == Api(ev.f, ev.a) IN
            /\ ev.r = x.r
            /\ IF ev.id = 0 THEN UNCHANGED held
               ELSE ev.id \notin DOMAIN held /\ held' = (ev.id :> x.s) @@ held
         /\ UNCHANGED busy
    ELSE IF ev.op = "rep"      \* n calls, same of them with the result r
    THEN ev.same = ev.n /\ ev.r = Api(ev.f, ev.a).r /\ UNCHANGED <<held, busy>>
    ELSE C!Step(ev)
Next == l <= Len(Trace) /\ l' = l + 1 /\ StepOrReset(Trace[l])
Spec == Init /\ [][Next]_<<held, busy, l>>
Report == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
