----------------------------- MODULE GenReader ------------------------------
(* Behaviours of ReaderImpl for replay against the code: prints each, as   *)
(* its events, when it comes to its end.                                   *)
EXTENDS ReaderImpl, Json, Randomization
VARIABLE hist
(* 'A'; U+AC00, U+D558, a code out of KS X 1001; no code; a lead byte alone *)
GenPieces == {<<65>>, <<176, 161>>, <<199, 207>>, <<129, 65>>, <<255, 255>>, <<201, 161>>, <<128, 65>>, <<176>>}
GenStreams == {FlattenSeq(p) : p \in UNION {RandomSubset(300, [1..k -> GenPieces]) : k \in 1..MaxSrc}}
GenInit ==
    /\ ContractInit("dec")
    /\ src \in GenStreams /\ ending \in Endings /\ blank \in 0..MaxBlank
    /\ rdata = <<>> /\ rcap = 0 /\ cdata = <<>> /\ err = "" /\ empty = 0
    /\ pc = "idle" /\ reads = 0 /\ ev = [op |-> "new"] /\ hist = <<>>
GenNext == Next /\ hist' = IF cvars' = cvars THEN hist ELSE Append(hist, ev')
GenSpec == GenInit /\ [][GenNext]_<<vars, hist>>
Emit == pc = "idle" /\ reads = MaxReads => PrintT("BEHAVIOUR " \o ToJson([hist |-> hist]))
=============================================================================
