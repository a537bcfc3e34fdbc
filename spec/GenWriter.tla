----------------------------- MODULE GenWriter ------------------------------
(* Behaviours of WriterImpl for replay against the code: prints each, as    *)
(* its events, when it comes to its end.                                   *)
EXTENDS WriterImpl, Json, Randomization
VARIABLE hist
(* 'A', U+AC00, U+D558, U+00B7 (in CP949), U+00E9 (not), U+1F600; and      *)
(* beginnings, ends and impossible bytes                                   *)
GenPieces == {<<65>>, <<234, 176, 128>>, <<237, 149, 152>>, <<194, 183>>, <<195, 169>>,
              <<240, 159, 152, 128>>, <<240, 159>>, <<234, 176>>, <<128>>, <<255>>, <<237, 160, 128>>}
GenTexts == {FlattenSeq(p) : p \in UNION {RandomSubset(300, [1..k -> GenPieces]) : k \in 1..MaxText}}
GenInit ==
    /\ ContractInit("enc")
    /\ text \in GenTexts /\ fails \in 0..MaxFail /\ writes = 0
    /\ buf = <<>> /\ data = <<>> /\ out = <<>> /\ pc = "idle" /\ ev = [op |-> "new"]
    /\ acc = <<>> /\ sunk = <<>> /\ hist = <<>>
GenNext == Next /\ hist' = IF cvars' = cvars THEN hist ELSE Append(hist, ev')
GenSpec == GenInit /\ [][GenNext]_<<vars, hist>>
Emit == (pc = "idle" /\ (writes = MaxWrites \/ (text = <<>> /\ writes > 0))) =>
            PrintT("BEHAVIOUR " \o ToJson([hist |-> hist]))
=============================================================================
