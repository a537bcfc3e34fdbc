------------------------------ MODULE GenCalls ------------------------------
(* Behaviours of CallsImpl for replay against the code.                    *)
EXTENDS CallsImpl, Json
VARIABLE hist
GenInit == Init /\ hist = <<>>
GenNext == Next /\ hist' = IF ev' = ev THEN hist ELSE Append(hist, ev')
GenSpec == GenInit /\ [][GenNext]_<<vars, hist>>
CONSTANT MaxHist
Emit == Len(hist) = MaxHist => PrintT("BEHAVIOUR " \o ToJson([hist |-> hist]))
Short == Len(hist) < MaxHist
=============================================================================
