----------------------------- MODULE PipeReader -----------------------------
(***************************************************************************)
(* golang.org/x/text/transform.Reader around any transformer that keeps    *)
(* the contract of Transform.tla, with buffers of a few bytes: it keeps    *)
(* the contract of Reader.tla.  This is why C21/C22 are enough for C23     *)
(* whatever the buffers' sizes are.                                        *)
(***************************************************************************)
EXTENDS Reader, Transform, TLC

CONSTANTS Alphabets, MaxSrc, Endings, MaxBlank, Bufs, MaxReads, SrcCap, DstCap
VARIABLES src, ending, blank,                       \* source
          sbuf, dbuf, err, complete, pc, reads, ev  \* transform.Reader
ivars == <<src, ending, blank, sbuf, dbuf, err, complete, pc, reads, ev>>
vars == <<cvars, ivars>>

Min2(a, b) == IF a < b THEN a ELSE b
Texts(k) == UNION {[1..n -> Alphabets[k]] : n \in 0..MaxSrc}
Init ==
    /\ \E k \in Kinds : ContractInit(k)
    /\ src \in Texts(kind) /\ ending \in Endings /\ blank = MaxBlank
    /\ sbuf = <<>> /\ dbuf = <<>> /\ err = "" /\ complete = FALSE /\ pc = "idle"
    /\ reads = 0 /\ ev = [op |-> "new"]

Begin(n) ==
    /\ pc = "idle" /\ reads < MaxReads /\ BeginEffect(n) /\ ev' = [op |-> "begin", n |-> n]
    /\ reads' = reads + 1 /\ pc' = "loop"
    /\ UNCHANGED <<src, ending, blank, sbuf, dbuf, err, complete>>

Give ==
    /\ pc = "loop" /\ (dbuf # <<>> \/ complete)
    /\ LET b == SubSeq(dbuf, 1, Min2(call.n, Len(dbuf)))
           rest == SubSeq(dbuf, Len(b) + 1, Len(dbuf))
           e == IF complete /\ rest = <<>> THEN err ELSE "" IN
       /\ ReturnEffect(b, e) /\ ev' = [op |-> "ret", b |-> b, e |-> e]
       /\ dbuf' = rest
    /\ pc' = "idle" /\ UNCHANGED <<src, ending, blank, sbuf, err, complete, reads>>

(* Any result that the contract of Transform allows.                       *)
Results == TransformResults(kind, sbuf, err = "EOF", DstCap)

Move ==
    /\ pc = "loop" /\ dbuf = <<>> /\ ~complete /\ (sbuf # <<>> \/ err # "")
    /\ \E x \in Results :
        /\ dbuf' = x.dst
        /\ sbuf' = SubSeq(sbuf, x.ns + 1, Len(sbuf))
        /\ CASE x.e = "" -> complete' = (err # "") /\ pc' = "loop" /\ UNCHANGED err
             [] x.e = "SHORTDST" /\ (x.nd # 0 \/ x.ns # 0) -> pc' = "loop" /\ UNCHANGED <<complete, err>>
             [] x.e = "SHORTSRC" /\ Len(sbuf') # SrcCap /\ err = "" -> pc' = "fetch" /\ UNCHANGED <<complete, err>>
             [] OTHER -> /\ complete' = TRUE /\ pc' = "loop"
                         /\ err' = IF err \in {"", "EOF"} THEN x.e ELSE err
    /\ UNCHANGED <<cvars, src, ending, blank, reads, ev>>

Fetch ==
    \/ pc = "fetch"
    \/ pc = "loop" /\ dbuf = <<>> /\ ~complete /\ sbuf = <<>> /\ err = ""
Source ==
    /\ Fetch
    /\ \E j \in 0..Min2(SrcCap - Len(sbuf), Len(src)) : \E e \in {"", ending} :
       LET b == SubSeq(src, 1, j) IN
       /\ e # "" => j = Len(src)
       /\ src = <<>> /\ blank = 0 => e # ""
       /\ j = 0 /\ e = "" => blank > 0
       /\ blank' = IF j = 0 /\ e = "" THEN blank - 1 ELSE blank
       /\ SupplyEffect(SrcCap - Len(sbuf), b, e) /\ ev' = [op |-> "src", n |-> SrcCap - Len(sbuf), b |-> b, e |-> e]
       /\ src' = SubSeq(src, j + 1, Len(src)) /\ sbuf' = sbuf \o b /\ err' = e
    /\ pc' = "loop" /\ UNCHANGED <<ending, dbuf, complete, reads>>
Next == (\E n \in Bufs : Begin(n)) \/ Give \/ Move \/ Source
Spec == Init /\ [][Next]_vars /\ WF_vars(Give \/ Move \/ Source)

Refines == [][UNCHANGED cvars \/ Step(ev')]_vars
EndsComplete == final # "" => pend = <<>> /\ src = <<>>
Returns == (call # NoCall) ~> (call = NoCall)
MCAlphabets == [dec |-> {65, 161, 176}, enc |-> {65, 234, 176, 128}]
=============================================================================
