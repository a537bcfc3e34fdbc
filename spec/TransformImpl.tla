--------------------------- MODULE TransformImpl ----------------------------
(***************************************************************************)
(* The loop of cp949Decoder.Transform and cp949Encoder.Transform           *)
(* (encoding/cp949/encoding.go): one state for each character.             *)
(***************************************************************************)
EXTENDS Transform, TLC
CONSTANTS Alphabets, MaxSrc, MaxDst, Bugs
VARIABLES kind, src, dn, eof, ns, dst, e, done
vars == <<kind, src, dn, eof, ns, dst, e, done>>
args == <<kind, src, dn, eof>>

Texts(k) == UNION {[1..n -> Alphabets[k]] : n \in 0..MaxSrc}
Init ==
    /\ kind \in Kinds /\ src \in Texts(kind) /\ dn \in 0..MaxDst /\ eof \in BOOLEAN
    /\ ns = 0 /\ dst = <<>> /\ e = "" /\ done = FALSE

Stop(err) == done' = TRUE /\ e' = err /\ UNCHANGED <<args, ns, dst>>
Char ==
    /\ ~done /\ ns < Len(src)
    /\ IF "IgnoreEOF" \notin Bugs /\ Stops(kind, src, eof, ns + 1)
       THEN Stop(IF eof THEN Truncated ELSE "SHORTSRC")
       ELSE IF kind = "dec" /\ Partial(kind, src, ns + 1) THEN Stop(Truncated)
       ELSE LET u == UnitOut(kind, src, ns + 1)
                n == UnitLen(kind, src, ns + 1)
                slack == IF "OffByOne" \in Bugs THEN 1 ELSE 0 IN
            IF Len(dst) + Len(u) > dn + slack
            THEN IF "EatsShort" \in Bugs
                 THEN done' = TRUE /\ e' = "SHORTDST" /\ ns' = ns + n /\ UNCHANGED <<args, dst>>
                 ELSE Stop("SHORTDST")
            ELSE /\ dst' = dst \o u /\ ns' = ns + n
                 /\ UNCHANGED <<args, e, done>>
End == ~done /\ ns = Len(src) /\ Stop("")
Next == Char \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Result == [src |-> src, eof |-> eof, dn |-> dn, ns |-> ns, nd |-> Len(dst), e |-> e, dst |-> dst]
Contract == done => TransformOK(kind, Result)
(* What the contract leaves open, the code does as eagerly as possible.    *)
Eager == done /\ e = "SHORTDST" => Len(dst) + Len(UnitOut(kind, src, ns + 1)) > dn
(* A full sized destination is always enough.                              *)
Enough == done /\ dn >= Len(Whole(kind, src).out) => e # "SHORTDST"
(* The set and the predicate are the same contract, on the results of the  *)
(* code and on near misses.                                                *)
Misses ==
    LET r == Result IN
    { [r EXCEPT !.ns = n, !.nd = Len(d), !.dst = d, !.e = x] :
      n \in {ns - 1, ns, ns + 1}, d \in {dst, SubSeq(dst, 1, Len(dst) - 1), Append(dst, 65)},
      x \in {"", "SHORTDST", "SHORTSRC", Truncated} }
SameContract ==
    done => /\ Result \in TransformResults(kind, src, eof, dn)
            /\ \A x \in Misses : (x \in TransformResults(kind, src, eof, dn)) = TransformOK(kind, x)
Ends == <>done

MCAlphabets == [dec |-> {65, 161, 176}, enc |-> {65, 234, 176, 128, 240}]
=============================================================================
