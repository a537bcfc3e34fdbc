------------------------------ MODULE ChainImpl ------------------------------
(***************************************************************************)
(* Any Reader and any Writer that keep their contracts (Reader.tla with    *)
(* MaySupply, Writer.tla), put together by a channel that cuts and delays  *)
(* as it likes, or by a loop like that of io.Copy: together they keep the  *)
(* contract of Chain.tla.  So C27 follows from C17, C18, C19 and C26, for  *)
(* whatever the Reader and the Writer do beyond their contracts.           *)
(***************************************************************************)
EXTENDS Chain, TLC

CONSTANTS Alphabets, MaxText, Bufs, MaxReads, MaxWrites, Endings,
          Prompt       \* whether the Reader has to be prompt

VARIABLES
    text, ending, chan, closed, hold, stop, reads, writes, ev, whole, got,
    wk, wpart, wexp, wnpart, wgiven, wfailed,
    rk, rpend, rpart, rserr, rfinal, rcall, rempties
wv == <<wk, wpart, wexp, wnpart, wgiven, wfailed>>
rv == <<rk, rpend, rpart, rserr, rfinal, rcall, rempties>>
ends == <<text, ending, chan, closed, hold, stop, reads, writes, whole>>
vars == <<chvars, text, ending, chan, closed, hold, stop, reads, writes, ev, whole, got, wv, rv>>

W == INSTANCE Writer WITH kind <- wk, part <- wpart, exp <- wexp, npart <- wnpart, given <- wgiven, failed <- wfailed
R == INSTANCE Reader WITH kind <- rk, pend <- rpend, part <- rpart, serr <- rserr, final <- rfinal, call <- rcall, empties <- rempties

Rest(s, b) == SubSeq(s, Len(b) + 1, Len(s))
Note(e) == ev' = e
Got(b) == got' = got \o b
Same == UNCHANGED <<ev, got, chvars>>

Init ==
    /\ \E k \in Kinds : ChainInit(k) /\ text \in UNION {[1..n -> Alphabets[k]] : n \in 0..MaxText}
    /\ ending \in IF first = "dec" THEN Endings ELSE {"EOF"}
    /\ whole = text /\ got = <<>> /\ chan = <<>> /\ closed = FALSE /\ hold = <<>> /\ stop = "" /\ reads = 0 /\ writes = 0
    /\ ev = [op |-> "new"]
    /\ W!ContractInit("enc") /\ R!ContractInit("dec")

-----------------------------------------------------------------------------
(* The Writer; in "enc" by itself, in "dec" with what was read.            *)
WBegin ==
    /\ W!CanBegin(<<>>)
    /\ IF first = "enc"
       THEN \E b \in Prefixes(text) :
            /\ writes < MaxWrites /\ writes' = writes + 1 /\ (writes' = MaxWrites => b = text)
            /\ ~closed
            /\ W!BeginEffect(b) /\ text' = Rest(text, b)
            /\ Note([op |-> "give", b |-> b, e |-> ""]) /\ GiveIn(b, "")
            /\ UNCHANGED <<hold, got>>
       ELSE /\ hold # <<>> /\ W!BeginEffect(hold) /\ hold' = <<>>
            /\ Same /\ UNCHANGED <<text, writes>>
    /\ UNCHANGED <<ending, chan, closed, stop, reads, whole, rv>>
WSink ==
    /\ \E b \in Prefixes(wexp) :
        /\ b # <<>> /\ W!CanSink(b, "") /\ W!SinkEffect(b, "")
        /\ IF first = "enc" THEN chan' = chan \o b /\ Same
           ELSE Note([op |-> "get", b |-> b]) /\ GetOut(b) /\ Got(b) /\ UNCHANGED chan
    /\ UNCHANGED <<text, ending, closed, hold, stop, reads, writes, whole, rv>>
WRet ==
    /\ W!CanReturn(wgiven, "") /\ W!ReturnEffect(wgiven, "")
    /\ Same /\ UNCHANGED <<ends, rv>>
Close ==
    /\ first = "enc" /\ text = <<>> /\ wgiven = -1 /\ ~closed /\ closed' = TRUE
    /\ Same /\ UNCHANGED <<text, ending, chan, hold, stop, reads, writes, whole, wv, rv>>

(* The Reader.  In "dec" it is called only when the Writer is done.        *)
RBegin ==
    /\ reads < MaxReads /\ stop = "" /\ (first = "dec" => hold = <<>> /\ wgiven = -1)
    /\ \E n \in Bufs : R!CanBegin(n) /\ R!BeginEffect(n)
    /\ reads' = reads + 1
    /\ Same /\ UNCHANGED <<text, ending, chan, closed, hold, stop, writes, whole, wv>>
(* nobody is at work: a stutter of everything but ev                       *)
Idle == rcall # R!NoCall /\ rcall.n > 0 /\ rserr = "" /\ (Prompt => rpend = <<>>)
        /\ (first = "enc" => chan = <<>> /\ wgiven = -1)
Quiet ==
    /\ Idle /\ ev.op # "quiet"
    /\ Note([op |-> "quiet"])
    /\ UNCHANGED <<chvars, got, ends, wv, rv>>
RSupply ==
    /\ rserr = "" /\ (Prompt => R!MaySupply)
    /\ IF first = "enc"
       THEN \E b \in Prefixes(chan), e \in {"", "EOF"} :
            /\ e = "EOF" => closed /\ b = chan
            /\ b = <<>> => e = "EOF"
            /\ R!CanSupply(100, b, e) /\ R!SupplyEffect(100, b, e)
            /\ chan' = Rest(chan, b) /\ Same /\ UNCHANGED text
       ELSE \E b \in Prefixes(text), e \in {"", ending} :
            /\ e # "" => b = text
            /\ b = <<>> => e # ""
            /\ R!CanSupply(100, b, e) /\ R!SupplyEffect(100, b, e)
            /\ text' = Rest(text, b)
            /\ Note([op |-> "give", b |-> b, e |-> e]) /\ GiveIn(b, e)
            /\ UNCHANGED <<chan, got>>
    /\ UNCHANGED <<ending, closed, hold, stop, reads, writes, whole, wv>>
RRet ==
    \E b \in Prefixes(rpend), e \in {"", "boom", "EOF", Truncated} :
    /\ R!CanReturn(b, e) /\ R!ReturnEffect(b, e)
    /\ stop' = e
    /\ IF first = "enc"
       THEN Note([op |-> "get", b |-> b]) /\ GetOut(b) /\ Got(b) /\ UNCHANGED hold
       ELSE hold' = b /\ Same
    /\ UNCHANGED <<text, ending, chan, closed, reads, writes, whole, wv>>
End ==
    /\ stop # "" /\ stop # "over" /\ hold = <<>> /\ wgiven = -1
    /\ Note([op |-> "end", e |-> IF stop = "EOF" THEN "" ELSE stop])
    /\ stop' = "over"
    /\ UNCHANGED <<chvars, got, text, ending, chan, closed, hold, reads, writes, whole, wv, rv>>

Next == WBegin \/ WSink \/ WRet \/ Close \/ RBegin \/ Quiet \/ RSupply \/ RRet \/ End
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Keeps == [][UNCHANGED <<chvars, ev>> \/ ChainStep(ev')]_vars

(* What came out in the end is what the two conversions make of the text,  *)
(* and of a CP949 text it is the text itself.                              *)
Good(k, s) == Steps(k, s).part = <<>> /\ LET t == Steps(k, s).out IN
              Steps(IF k = "enc" THEN "dec" ELSE "enc", t).out = s
Identity == stop = "over" /\ Good(first, whole) => got = whole
OnTheWay == Good(first, whole) => IsPrefix(got, whole)
MCAlphabets == [enc |-> {65, 234, 176, 128}, dec |-> {65, 161, 176}]
=============================================================================
