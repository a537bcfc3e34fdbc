-------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* Both directions of the conversion as one machine that consumes its      *)
(* input unit by unit.  kind is "dec" (CP949 to UTF-8) or "enc" (UTF-8 to  *)
(* CP949).                                                                 *)
(***************************************************************************)
EXTENDS CP949

Kinds == {"dec", "enc"}

(* From i on, s is a beginning of a unit that needs more bytes.            *)
Partial(kind, s, i) ==
    IF kind = "dec" THEN s[i] >= 128 /\ i = Len(s) ELSE IncompleteAt(s, i)

(* Length and conversion of the unit at i.  For "enc", bytes that make no  *)
(* rune are units of their own.                                            *)
UnitLen(kind, s, i) ==
    IF kind = "dec" THEN (IF s[i] >= 128 THEN 2 ELSE 1) ELSE UnitLenAt(s, i)
UnitOut(kind, s, i) ==
    IF kind = "dec"
    THEN (IF s[i] >= 128 THEN DecodePair(s[i], s[i+1]) ELSE <<s[i]>>)
    ELSE EncodeRune(RuneAt(s, i))
MaxUnitOut(kind) == IF kind = "dec" THEN 3 ELSE 2

(* Conversion of all complete units of s: the output, and what is left.    *)
(* The output is put together from blocks of k bytes and more; k makes a   *)
(* difference to TLC's time only (MC_Codec!Blocks).                        *)
StepsBy(k, kind, s) ==
    LET f == FoldLeftDomain(
        LAMBDA acc, i :
            IF i < acc.next \/ acc.stop THEN acc
            ELSE IF Partial(kind, s, i) THEN [acc EXCEPT !.stop = TRUE]
            ELSE LET o == acc.block \o UnitOut(kind, s, i)
                     full == Len(o) >= k IN
                 [next  |-> i + UnitLen(kind, s, i), stop |-> FALSE,
                  block |-> IF full THEN <<>> ELSE o,
                  out   |-> IF full THEN acc.out \o o ELSE acc.out],
        [next |-> 1, stop |-> FALSE, block |-> <<>>, out |-> <<>>], s)
    IN  [out |-> f.out \o f.block, part |-> SubSeq(s, f.next, Len(s))]
Steps(kind, s) == StepsBy(200, kind, s)

(* What becomes of a partial unit at the end of the text: a CP949 stream   *)
(* is broken, each byte of an incomplete UTF-8 sequence is a '?'.          *)
Truncated == "TRUNC"
FlushOut(kind, part) == IF kind = "dec" THEN <<>> ELSE [i \in 1..Len(part) |-> Question]
FlushErr(kind, part) == IF kind = "dec" /\ part # <<>> THEN Truncated ELSE ""

(* Conversion of a whole text.                                             *)
Whole(kind, s) ==
    LET st == Steps(kind, s)
    IN  [out |-> st.out \o FlushOut(kind, st.part), err |-> FlushErr(kind, st.part)]

(* C16: the one-shot functions give no output with an error.               *)
OneShot(kind, s) ==
    LET w == Whole(kind, s) IN IF w.err = "" THEN w ELSE [out |-> <<>>, err |-> w.err]

(* out is what s converts to; the same as out = Steps(kind, s).out, but    *)
(* takes time linear in the lengths.                                       *)
StepsMatch(kind, s, out) ==
    LET f == FoldLeftDomain(
        LAMBDA acc, i :
            IF i < acc.next \/ ~acc.ok \/ acc.stop THEN acc
            ELSE IF Partial(kind, s, i) THEN [acc EXCEPT !.stop = TRUE]
            ELSE LET u == UnitOut(kind, s, i) IN
                 [next |-> i + UnitLen(kind, s, i), stop |-> FALSE,
                  at   |-> acc.at + Len(u),
                  ok   |-> acc.at + Len(u) <= Len(out) /\ SubSeq(out, acc.at + 1, acc.at + Len(u)) = u],
        [next |-> 1, stop |-> FALSE, at |-> 0, ok |-> TRUE], s)
    IN  [ok |-> f.ok, at |-> f.at, part |-> SubSeq(s, f.next, Len(s))]
WholeMatch(kind, s, out, err) ==
    LET f == StepsMatch(kind, s, out) IN
    /\ f.ok
    /\ err = FlushErr(kind, f.part)
    /\ SubSeq(out, f.at + 1, Len(out)) = FlushOut(kind, f.part)
OneShotMatch(kind, s, out, err) ==
    IF err = "" THEN WholeMatch(kind, s, out, "")
    ELSE out = <<>> /\ err = FlushErr(kind, Steps(kind, s).part)
=============================================================================
