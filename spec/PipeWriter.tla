----------------------------- MODULE PipeWriter -----------------------------
(***************************************************************************)
(* golang.org/x/text/transform.Writer around any transformer that keeps    *)
(* the contract of Transform.tla, with buffers of a few bytes: it keeps    *)
(* the contract of Writer.tla (C23), as long as the sink does not fail.    *)
(***************************************************************************)
EXTENDS Writer, Transform, TLC

CONSTANTS Alphabets, MaxText, MaxWrites, SrcCap, DstCap
VARIABLES text, writes, data, src, n, wn, pc, ev, out, eof, res
ivars == <<text, writes, data, src, n, wn, pc, ev, out, eof, res>>
vars == <<cvars, ivars>>
(* wn: bytes kept in w.src (w.n); res: error of the last Transform         *)

Min2(a, b) == IF a < b THEN a ELSE b
Texts(k) == UNION {[1..m -> Alphabets[k]] : m \in 0..MaxText}
Init ==
    /\ \E k \in Kinds : ContractInit(k)
    /\ text \in Texts(kind) /\ writes = 0 /\ data = <<>> /\ src = <<>> /\ n = 0 /\ wn = 0
    /\ pc = "idle" /\ ev = [op |-> "new"] /\ out = <<>> /\ eof = FALSE /\ res = [e |-> "", nd |-> 0, ns |-> 0]

(* between calls, src is w.src[:w.n]                                        *)
Write(j) ==
    /\ pc = "idle" /\ writes < MaxWrites /\ j <= Len(text)
    /\ LET b == SubSeq(text, 1, j) IN
       /\ BeginEffect(b) /\ ev' = [op |-> "wbegin", b |-> b]
       /\ data' = b /\ text' = SubSeq(text, j + 1, Len(text))
       /\ IF wn > 0
          THEN LET k == Min2(SrcCap - wn, j) IN
               n' = k /\ wn' = wn + k /\ src' = src \o SubSeq(b, 1, k)
          ELSE n' = 0 /\ wn' = wn /\ src' = b
    /\ writes' = writes + 1 /\ pc' = "move" /\ eof' = FALSE
    /\ UNCHANGED <<out, res>>

Close ==
    /\ pc = "idle" /\ writes < MaxWrites /\ writes' = MaxWrites
    /\ CloseEffect /\ ev' = [op |-> "cbegin"] /\ eof' = TRUE /\ pc' = "move"
    /\ UNCHANGED <<text, data, src, n, wn, out, res>>

Results == TransformResults(kind, src, eof, DstCap)
Move ==
    /\ pc = "move"
    /\ \E x \in Results : out' = x.dst /\ src' = SubSeq(src, x.ns + 1, Len(src)) /\ res' = [e |-> x.e, nd |-> x.nd, ns |-> x.ns]
    /\ pc' = "sink"
    /\ UNCHANGED <<cvars, text, writes, data, n, wn, ev, eof>>

Sink ==
    /\ pc = "sink"
    /\ SinkEffect(out, "") /\ ev' = [op |-> "sink", b |-> out, e |-> ""]
    /\ pc' = IF eof THEN "close" ELSE "next"
    /\ UNCHANGED <<text, writes, data, src, n, wn, out, eof, res>>

Give(m, e, s, w) ==
    /\ ReturnEffect(m, e) /\ ev' = [op |-> "wret", n |-> m, e |-> e] /\ pc' = "idle"
    /\ src' = s /\ wn' = w /\ n' = m
Again(s, m, w) == src' = s /\ n' = m /\ wn' = w /\ pc' = "move" /\ UNCHANGED <<cvars, ev>>

After ==
    /\ pc = "next"
    /\ LET frombuf == wn > 0
           switch == frombuf /\ Len(src) <= n
           n1 == IF ~frombuf THEN n + res.ns ELSE IF switch THEN n - Len(src) ELSE n
           w1 == IF switch THEN 0 ELSE wn
           s1 == IF switch THEN SubSeq(data, n1 + 1, Len(data)) ELSE src
       IN
       IF switch /\ n1 < Len(data) /\ res.e \in {"", "SHORTSRC"} THEN Again(s1, n1, w1)
       ELSE IF res.e = "SHORTDST" /\ (res.nd > 0 \/ res.ns > 0) THEN Again(s1, n1, w1)
       ELSE IF res.e = "SHORTSRC" /\ Len(s1) < SrcCap
            THEN Give(IF w1 = 0 THEN n1 + Len(s1) ELSE n1, "", s1, Len(s1))
       ELSE IF res.e = "SHORTSRC" /\ (res.nd > 0 \/ res.ns > 0) THEN Again(s1, n1, w1)
       ELSE Give(n1, IF res.e = "" /\ w1 > 0 THEN "INCONSISTENT" ELSE res.e, <<>>, 0)
    /\ UNCHANGED <<text, writes, data, out, eof, res>>

Closing ==
    /\ pc = "close"
    /\ IF res.e = "SHORTDST" THEN pc' = "move" /\ UNCHANGED <<cvars, ev>>
       ELSE CloseReturnEffect(res.e) /\ ev' = [op |-> "cret", e |-> res.e] /\ pc' = "idle"
    /\ UNCHANGED <<text, writes, data, src, n, wn, out, eof, res>>

Next == (\E j \in 0..MaxText : Write(j)) \/ Close \/ Move \/ Sink \/ After \/ Closing
Spec == Init /\ [][Next]_vars /\ WF_vars(Move \/ Sink \/ After \/ Closing)
Refines == [][UNCHANGED cvars \/ Step(ev')]_vars
Returns == (given # -1) ~> (given = -1)
MCAlphabets == [dec |-> {65, 161, 176}, enc |-> {65, 234, 176, 128}]
=============================================================================
