------------------------- MODULE PipeWriterForever -------------------------
(* PipeWriter for texts of any length and any number of Writes before the  *)
(* Close, as in WriterForever.                                             *)
EXTENDS PipeWriter

Refill ==
    /\ pc = "idle" /\ ~eof
    /\ text' \in Texts(kind) /\ writes' = 0
    /\ UNCHANGED <<cvars, data, src, n, wn, pc, ev, out, eof, res>>
NextForever == Next \/ Refill
SpecForever == Init /\ [][NextForever]_vars /\ WF_vars(Move \/ Sink \/ After \/ Closing)
=============================================================================
