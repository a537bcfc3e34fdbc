----------------------------- MODULE Transform ------------------------------
(***************************************************************************)
(* Contract of one call Transform(dst, src, atEOF) of CP949Encoding's      *)
(* decoder and encoder (C21, C22).  The event has the arguments src, eof,  *)
(* dn = len(dst), and the results ns, nd, e, and dst = dst[:nd].           *)
(***************************************************************************)
EXTENDS Codec

(* At i there is something that is not to be consumed yet, or ever.        *)
Stops(kind, s, eof, i) == Partial(kind, s, i) /\ ~(kind = "enc" /\ eof)

(* The first ns bytes of src are whole characters which convert to dst.    *)
Consumed(kind, src, eof, ns, dst) ==
    LET f == FoldLeftDomain(
        LAMBDA acc, i :
            IF i < acc.next \/ i > ns \/ ~acc.ok THEN acc
            ELSE IF Stops(kind, src, eof, i) THEN [acc EXCEPT !.ok = FALSE]
            ELSE LET u == UnitOut(kind, src, i) IN
                 [next |-> i + UnitLen(kind, src, i),
                  at   |-> acc.at + Len(u),
                  ok   |-> acc.at + Len(u) <= Len(dst) /\ SubSeq(dst, acc.at + 1, acc.at + Len(u)) = u],
        [next |-> 1, at |-> 0, ok |-> TRUE], src)
    IN  f.ok /\ f.next = ns + 1 /\ f.at = Len(dst)

(* How many bytes of dst the unit at i asks for: those of its conversion,  *)
(* or, while it is incomplete, as many as it may come to.                  *)
RoomNeeded(kind, s, eof, i) ==
    IF Stops(kind, s, eof, i) THEN MaxUnitOut(kind) ELSE Len(UnitOut(kind, s, i))

(* The error fits what was consumed and written.                           *)
Ending(kind, ev) ==
    LET more == ev.ns < Len(ev.src) IN
    CASE ev.e = ""         -> ~more
      [] ev.e = "SHORTDST" -> more /\ ev.dn - ev.nd < RoomNeeded(kind, ev.src, ev.eof, ev.ns + 1)
      [] ev.e = "SHORTSRC" -> more /\ ~ev.eof /\ Partial(kind, ev.src, ev.ns + 1)
      [] ev.e = Truncated  -> more /\ ev.eof /\ kind = "dec" /\ Partial(kind, ev.src, ev.ns + 1)
      [] OTHER -> FALSE
Fits(ev) ==
    /\ ev.nd >= 0 /\ ev.nd <= ev.dn /\ ev.ns >= 0 /\ ev.ns <= Len(ev.src)
    /\ Len(ev.dst) = ev.nd
TransformOK(kind, ev) ==
    /\ Fits(ev)
    /\ Consumed(kind, ev.src, ev.eof, ev.ns, ev.dst)
    /\ Ending(kind, ev)

(* All results which the contract allows, made one by one.                 *)
Points(kind, src, eof) ==
    FoldLeftDomain(
        LAMBDA acc, i :
            IF i < acc.next \/ acc.stop THEN acc
            ELSE IF Stops(kind, src, eof, i) THEN [acc EXCEPT !.stop = TRUE]
            ELSE LET o == acc.last.dst \o UnitOut(kind, src, i)
                     p == [ns |-> i + UnitLen(kind, src, i) - 1, dst |-> o] IN
                 [acc EXCEPT !.next = i + UnitLen(kind, src, i), !.last = p, !.all = @ \cup {p}],
        [next |-> 1, stop |-> FALSE, last |-> [ns |-> 0, dst |-> <<>>],
         all |-> {[ns |-> 0, dst |-> <<>>]}], src).all
TransformResults(kind, src, eof, dn) ==
    { x \in { [src |-> src, eof |-> eof, dn |-> dn, ns |-> p.ns, nd |-> Len(p.dst), dst |-> p.dst, e |-> e] :
              p \in Points(kind, src, eof), e \in {"", "SHORTDST", "SHORTSRC", Truncated} } :
      Fits(x) /\ Ending(kind, x) }
=============================================================================
