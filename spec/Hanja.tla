-------------------------------- MODULE Hanja -------------------------------
(***************************************************************************)
(* Package hanja.  The reading dictionary is data: element i of the array  *)
(* is the reading of rune HanjaLo + i - 1, 0 if it has none.               *)
(***************************************************************************)
EXTENDS Utf8, Json

HanjaLo == \h3400
ReadingTab == JsonDeserialize("data/hanja.json")
HanjaHi == HanjaLo + Len(ReadingTab) - 1

Reading(r) == IF r >= HanjaLo /\ r <= HanjaHi THEN ReadingTab[r - HanjaLo + 1] ELSE 0

(* C12 *)
IsHanja(r) == Reading(r) # 0
Convert1(r) == IF IsHanja(r) THEN Reading(r) ELSE r

(* C11.  As in Codec!StepsBy, k makes no difference to the result.         *)
ConvertBy(k, s) ==
    LET f == FoldLeftDomain(
        LAMBDA acc, i :
            IF i < acc.next THEN acc
            ELSE LET o == acc.block \o Utf8Of(Convert1(RuneAt(s, i)))
                     full == Len(o) >= k IN
                 [next  |-> i + UnitLenAt(s, i),
                  block |-> IF full THEN <<>> ELSE o,
                  out   |-> IF full THEN acc.out \o o ELSE acc.out],
        [next |-> 1, block |-> <<>>, out |-> <<>>], s)
    IN  f.out \o f.block
Convert(s) == ConvertBy(200, s)
=============================================================================
