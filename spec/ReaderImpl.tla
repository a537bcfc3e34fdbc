----------------------------- MODULE ReaderImpl -----------------------------
(***************************************************************************)
(* The algorithm of cp949Reader (encoding/cp949/public.go), with the       *)
(* source as its environment, beside the contract's variables as ghosts.   *)
(* Refines says that every event of the algorithm is one the contract      *)
(* allows.  Bugs switches on faults, some of which the code had, to show   *)
(* that the contract notices them.                                         *)
(***************************************************************************)
EXTENDS Reader, TLC

CONSTANTS Alphabet, MaxSrc,      \* streams
          Endings,               \* errors the source may end with
          MaxBlank,              \* reads of the source that give nothing
          Bufs, MaxReads,        \* buffer sizes, and number of Reads
          MaxEmpty,              \* maxEmptyReads
          Bugs

VARIABLES
    src, ending, blank,                     \* source: rest of stream, its error, budget
    rdata, rcap, cdata, err, empty, pc,     \* the reader
    reads, ev
ivars == <<src, ending, blank, rdata, rcap, cdata, err, empty, pc, reads, ev>>
vars == <<cvars, ivars>>

MinOf(a, b) == IF a < b THEN a ELSE b
RECURSIVE Grow(_, _)
Grow(m, n) == IF m >= n THEN m ELSE Grow(IF m < 1024 THEN m + m ELSE m + m \div 4, n)
EnsureCap(m, n) == IF n <= m THEN m ELSE IF m = 0 THEN n ELSE Grow(m + m, n)

Streams == UNION {[1..k -> Alphabet] : k \in 0..MaxSrc}

Init ==
    /\ ContractInit("dec")
    /\ src \in Streams /\ ending \in Endings /\ blank = MaxBlank
    /\ rdata = <<>> /\ rcap = 0 /\ cdata = <<>> /\ err = "" /\ empty = 0
    /\ pc = "idle" /\ reads = 0 /\ ev = [op |-> "new"]

Begin(n) ==
    /\ pc = "idle" /\ reads < MaxReads
    /\ BeginEffect(n) /\ ev' = [op |-> "begin", n |-> n]
    /\ pc' = IF n = 0 /\ "EmptyReadEnds" \notin Bugs THEN "zero" ELSE "loop"
    /\ reads' = reads + 1
    /\ UNCHANGED <<src, ending, blank, rdata, rcap, cdata, err, empty>>

Give(b, e) == ReturnEffect(b, e) /\ ev' = [op |-> "ret", b |-> b, e |-> e] /\ pc' = "idle"

Zero ==
    /\ pc = "zero" /\ Give(<<>>, "")
    /\ UNCHANGED <<src, ending, blank, rdata, rcap, cdata, err, empty, reads>>

Deliver ==
    /\ pc = "loop" /\ cdata # <<>>
    /\ LET k == MinOf(call.n, Len(cdata)) IN
       /\ Give(SubSeq(cdata, 1, k), "")
       /\ cdata' = IF "DropRest" \in Bugs THEN <<>> ELSE SubSeq(cdata, k + 1, Len(cdata))
    /\ UNCHANGED <<src, ending, blank, rdata, rcap, err, empty, reads>>

Finish ==
    /\ pc = "loop" /\ cdata = <<>> /\ err # "" /\ rdata = <<>>
    /\ Give(<<>>, err)
    /\ err' = IF "ErrorOnce" \in Bugs THEN "EOF" ELSE IF "Retry" \in Bugs THEN "" ELSE err
    /\ UNCHANGED <<src, ending, blank, rdata, rcap, cdata, empty, reads>>

(* One call of the source, which fills what room there is as it likes.     *)
Fetch ==
    /\ pc = "loop" /\ (cdata = <<>> \/ "Greedy" \in Bugs) /\ err = ""
    /\ LET cap2 == EnsureCap(rcap, Len(rdata) + call.n)
           ask  == cap2 - Len(rdata) IN
       \* read again after its error, it may have more
       \E b \in IF serr # "" THEN {<<>>, <<65>>} ELSE {SubSeq(src, 1, j) : j \in 0..MinOf(ask, Len(src))} :
       \E e \in {"", ending} :
           LET isblank == b = <<>> /\ e = ""
               empty2 == IF b # <<>> THEN 0 ELSE empty + 1 IN
           /\ e # "" => Len(b) >= Len(src)
           /\ src = <<>> /\ blank = 0 /\ ask > 0 => e # ""
           /\ isblank => blank > 0 \/ ask = 0
           /\ blank' = IF isblank /\ blank > 0 THEN blank - 1 ELSE blank
           /\ SupplyEffect(ask, b, e) /\ ev' = [op |-> "src", n |-> ask, b |-> b, e |-> e]
           /\ src' = SubSeq(src, Len(b) + 1, Len(src))
           /\ rdata' = rdata \o b
           /\ rcap' = cap2
           /\ empty' = empty2
           /\ err' = IF isblank /\ "EmptyIsEOF" \in Bugs THEN "EOF"
                     ELSE IF e = "" /\ empty2 >= MaxEmpty THEN "NOPROGRESS"
                     ELSE e
    /\ pc' = "conv"
    /\ UNCHANGED <<ending, cdata, reads>>

Resume ==
    /\ pc = "loop" /\ cdata = <<>> /\ err # "" /\ rdata # <<>>
    /\ pc' = "conv"
    /\ UNCHANGED <<cvars, src, ending, blank, rdata, rcap, cdata, err, empty, reads, ev>>

Convert ==
    /\ pc = "conv" /\ pc' = "loop"
    /\ LET st == Steps("dec", rdata)
           fails == st.part # <<>>
           n == IF fails /\ "TruncDrops" \in Bugs THEN 0 ELSE Len(rdata) - Len(st.part)
           force == n = 0 /\ err # ""
       IN
       /\ cdata' = (IF "Greedy" \in Bugs THEN cdata ELSE <<>>) \o IF fails /\ "TruncDrops" \in Bugs THEN <<>> ELSE st.out
       /\ rdata' = IF force THEN <<>>
                   ELSE IF "LosePart" \in Bugs THEN <<>>
                   ELSE SubSeq(rdata, n + 1, Len(rdata))
       /\ err' = IF force /\ fails /\ err = "EOF" /\ {"TruncDrops", "TruncSilent"} \cap Bugs = {}
                 THEN Truncated ELSE err
    /\ UNCHANGED <<cvars, src, ending, blank, rcap, empty, reads, ev>>

Next == (\E n \in Bufs : Begin(n)) \/ Zero \/ Deliver \/ Finish \/ Fetch \/ Resume \/ Convert
Spec == Init /\ [][Next]_vars /\ WF_vars(Zero \/ Deliver \/ Finish \/ Fetch \/ Resume \/ Convert)

-----------------------------------------------------------------------------
(* The algorithm refines the contract.                                     *)
Refines == [][UNCHANGED cvars \/ Step(ev')]_vars
(* C26: it asks its source only if it has nothing to give.                 *)
Prompt == [][call # NoCall /\ call'.gets > call.gets => MaySupply]_vars

(* Ghosts and the algorithm's variables agree.                             *)
Consistent ==
    /\ pend = cdata \o Steps("dec", rdata).out
    /\ err \notin {Truncated} /\ ~(err # "" /\ rdata = <<>>) => part = Steps("dec", rdata).part
    /\ Len(rdata) <= rcap
(* Whoever reads to the end got everything.                                *)
EndsComplete == final \notin {"", "NOPROGRESS"} => pend = <<>> /\ src = <<>>
(* Every Read comes back.                                                  *)
Returns == (call # NoCall) ~> (call = NoCall)

MCAlphabet == {65, 161, 176}
MCNoProgress == 2
=============================================================================
