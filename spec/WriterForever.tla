--------------------------- MODULE WriterForever ---------------------------
(***************************************************************************)
(* WriterImpl for texts of any length, any number of Writes and of         *)
(* failures: as in ReaderForever.  Of what was accepted and sunk, only     *)
(* the part of a character that is still to be completed is kept.          *)
(***************************************************************************)
EXTENDS WriterImpl

Refill ==
    /\ pc = "idle" /\ text = <<>>
    /\ text' \in Texts /\ fails' = MaxFail /\ writes' = 0
    /\ acc' = buf /\ sunk' = <<>>
    /\ UNCHANGED <<cvars, buf, data, out, pc, ev>>
NextForever == Next \/ Refill
SpecForever == Init /\ [][NextForever]_vars /\ WF_vars(Sink \/ Succeed \/ Fail)
=============================================================================
