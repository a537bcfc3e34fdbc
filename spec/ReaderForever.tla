--------------------------- MODULE ReaderForever ---------------------------
(***************************************************************************)
(* ReaderImpl for streams that do not end, or after any length, and for     *)
(* any number of Reads: what the source has is refilled once it is used    *)
(* up, with up to MaxSrc bytes at a time, and neither the contract nor the *)
(* algorithm remembers what is over.  The states are finite all the same.  *)
(***************************************************************************)
EXTENDS ReaderImpl

Refill ==
    /\ src = <<>> /\ serr = "" /\ pc \in {"idle", "loop"}
    /\ src' \in Streams \ {<<>>} /\ blank' = MaxBlank
    /\ UNCHANGED <<cvars, ending, rdata, rcap, cdata, err, empty, pc, reads, ev>>
Again ==
    /\ pc = "idle" /\ reads' = 0
    /\ UNCHANGED <<cvars, src, ending, blank, rdata, rcap, cdata, err, empty, pc, ev>>
NextForever == Next \/ Refill \/ Again
SpecForever == Init /\ [][NextForever]_vars /\ WF_vars(Zero \/ Deliver \/ Finish \/ Fetch \/ Resume \/ Convert)

(* Nothing piles up in the reader.                                         *)
Bounded == Len(rdata) <= rcap /\ rcap <= 16 /\ Len(pend) <= 3 * rcap
=============================================================================
