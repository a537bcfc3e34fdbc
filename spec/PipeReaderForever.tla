------------------------- MODULE PipeReaderForever -------------------------
(* PipeReader for streams of any length and any number of Reads, as in     *)
(* ReaderForever.                                                          *)
EXTENDS PipeReader

Refill ==
    /\ src = <<>> /\ serr = "" /\ pc \in {"idle", "loop", "fetch"}
    /\ src' \in Texts(kind) \ {<<>>} /\ blank' = MaxBlank
    /\ UNCHANGED <<cvars, ending, sbuf, dbuf, err, complete, pc, reads, ev>>
Again ==
    /\ pc = "idle" /\ reads' = 0
    /\ UNCHANGED <<cvars, src, ending, blank, sbuf, dbuf, err, complete, pc, ev>>
NextForever == Next \/ Refill \/ Again
SpecForever == Init /\ [][NextForever]_vars /\ WF_vars(Give \/ Move \/ Source)
=============================================================================
