------------------------------- MODULE Reader -------------------------------
(***************************************************************************)
(* Contract of a converting io.Reader (C17, C18, and C23 for the readers   *)
(* of x/text): what a caller and the source may observe.  Each event is a  *)
(* record:                                                                 *)
(*   [op |-> "begin", n]      a Read with a buffer of n bytes begins       *)
(*   [op |-> "src", n, b, e]  the source is read with a buffer of n bytes, *)
(*                            gives bytes b and error e                    *)
(*   [op |-> "ret", b, e]     the Read gives bytes b and error e           *)
(* Errors are names, "" is none.  How much a Read gives, and when it reads *)
(* the source, is left open.                                               *)
(***************************************************************************)
EXTENDS Codec

VARIABLES
    kind,     \* "dec" or "enc"
    pend,     \* converted, not yet delivered
    part,     \* supplied, not yet a complete character
    serr,     \* error of the source, "" if it has none yet
    final,    \* error which was reported to the caller
    call,     \* the Read under way: size of the buffer and reads of the source
    empties   \* consecutive reads of the source without data or error
cvars == <<kind, pend, part, serr, final, call, empties>>

NoCall == [n |-> -1, gets |-> 0]

ContractInit(k) ==
    /\ kind = k /\ pend = <<>> /\ part = <<>> /\ serr = "" /\ final = ""
    /\ call = NoCall /\ empties = 0
ContractReset(k) ==
    /\ kind' = k /\ pend' = <<>> /\ part' = <<>> /\ serr' = "" /\ final' = ""
    /\ call' = NoCall /\ empties' = 0

(* Repeats of a source that gives nothing after which a Read may give up.  *)
NoProgressMin == 10

(* What the stream ends with, once the source has ended.                   *)
EndError == IF serr = "EOF" /\ part # <<>> THEN Truncated ELSE serr

-----------------------------------------------------------------------------
CanBegin(n) == call = NoCall /\ n >= 0
BeginEffect(n) ==
    /\ call' = [n |-> n, gets |-> 0]
    /\ UNCHANGED <<kind, pend, part, serr, final, empties>>

CanSupply(n, b, e) ==
    /\ call # NoCall
    /\ Len(b) <= n

(* A source that gave an error has ended: what it gives if it is read       *)
(* again, be it data, another error or nothing, is no part of the stream.   *)
SupplyEffect(n, b, e) ==
    IF serr # "" THEN
      /\ call' = [call EXCEPT !.gets = @ + 1]
      /\ UNCHANGED <<kind, pend, part, serr, final, empties>>
    ELSE
    LET st == Steps(kind, part \o b)
        flush == e = "EOF" /\ kind = "enc"
    IN
    /\ pend' = pend \o st.out \o (IF flush THEN FlushOut(kind, st.part) ELSE <<>>)
    /\ part' = IF flush THEN <<>> ELSE st.part
    /\ serr' = e
    /\ call' = [call EXCEPT !.gets = @ + 1]
    \* a source that was asked for nothing may give nothing
    /\ empties' = IF b # <<>> \/ e # "" THEN 0 ELSE IF n > 0 THEN empties + 1 ELSE empties
    /\ UNCHANGED <<kind, final>>

CanReturn(b, e) ==
    /\ call # NoCall
    /\ Len(b) <= call.n
    /\ IsPrefix(b, pend)
    /\ IF e = ""
       THEN \/ b # <<>>
            \/ call.n = 0
            \* nothing to give yet; the source has been asked
            \/ pend = <<>> /\ serr = "" /\ call.gets > 0
       ELSE /\ b = pend
            /\ \/ serr # "" /\ e = EndError
               \/ serr = "" /\ e = "NOPROGRESS" /\ (empties >= NoProgressMin \/ final = e)
    \* an error that was reported stays; who gave up may try again
    /\ final \notin {"", "NOPROGRESS"} /\ call.n > 0 => b = <<>> /\ e = final
ReturnEffect(b, e) ==
    /\ pend' = SubSeq(pend, Len(b) + 1, Len(pend))
    /\ call' = NoCall
    /\ final' = IF e = "" THEN final ELSE e
    /\ UNCHANGED <<kind, part, serr, empties>>

(* C26: the source is asked for more only if the Read under way has nothing *)
(* to give.  A Read into an empty buffer takes nothing away, and a source   *)
(* that has ended has no more.                                              *)
MaySupply == pend = <<>> \/ call.n = 0 \/ serr # ""

(* One observed event.                                                     *)
Step(ev) ==
    CASE ev.op = "begin" -> CanBegin(ev.n) /\ BeginEffect(ev.n)
      [] ev.op = "src"   -> CanSupply(ev.n, ev.b, ev.e) /\ SupplyEffect(ev.n, ev.b, ev.e)
      [] ev.op = "ret"   -> CanReturn(ev.b, ev.e) /\ ReturnEffect(ev.b, ev.e)
      [] OTHER -> FALSE
=============================================================================
