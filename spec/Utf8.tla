-------------------------------- MODULE Utf8 --------------------------------
(***************************************************************************)
(* UTF-8 as Go programs see it.  A string is a sequence of bytes; reading  *)
(* it from the left yields *units*: a well-formed sequence of 1 to 4 bytes *)
(* which stands for a rune, or a single byte that starts none, which       *)
(* stands for RuneError (U+FFFD).                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

RuneError == 65533
MaxRune   == 1114111
IsSurrogate(r) == r \in 55296..57343
IsScalar(r)    == r \in 0..MaxRune /\ ~IsSurrogate(r)

(* Number of bytes of the sequence that b starts; 0 if b starts none.      *)
SizeOf(b) == IF b < 128 THEN 1
             ELSE IF b < 194 THEN 0
             ELSE IF b < 224 THEN 2
             ELSE IF b < 240 THEN 3
             ELSE IF b < 245 THEN 4 ELSE 0

(* The bytes which may follow the first byte b; no overlong forms, no      *)
(* surrogates, nothing beyond MaxRune.                                     *)
SecondLo(b) == IF b = 224 THEN 160 ELSE IF b = 240 THEN 144 ELSE 128
SecondHi(b) == IF b = 237 THEN 159 ELSE IF b = 244 THEN 143 ELSE 191

(* Byte i+k of s can be the k-th byte (from 0) of a sequence that starts   *)
(* at i.                                                                   *)
Continues(s, i, k) ==
    IF k = 1 THEN s[i+1] >= SecondLo(s[i]) /\ s[i+1] <= SecondHi(s[i])
             ELSE s[i+k] >= 128 /\ s[i+k] <= 191

WellFormedAt(s, i) ==
    LET n == SizeOf(s[i])
    IN  n > 0 /\ i + n - 1 <= Len(s) /\ \A k \in 1..(n-1) : Continues(s, i, k)

(* What is left of s from i on is a proper prefix of a well-formed         *)
(* sequence: more bytes could make it a rune.                              *)
IncompleteAt(s, i) ==
    LET n == SizeOf(s[i])
    IN  n > 1 /\ i + n - 1 > Len(s) /\ \A k \in 1..(Len(s)-i) : Continues(s, i, k)

UnitLenAt(s, i) == IF WellFormedAt(s, i) THEN SizeOf(s[i]) ELSE 1

RuneAt(s, i) ==
    IF ~WellFormedAt(s, i) THEN RuneError
    ELSE LET n == SizeOf(s[i]) IN
         CASE n = 1 -> s[i]
           [] n = 2 -> (s[i] - 192) * 64 + (s[i+1] - 128)
           [] n = 3 -> (s[i] - 224) * 4096 + (s[i+1] - 128) * 64 + (s[i+2] - 128)
           [] n = 4 -> (s[i] - 240) * 262144 + (s[i+1] - 128) * 4096
                       + (s[i+2] - 128) * 64 + (s[i+3] - 128)

(* The UTF-8 form of a rune; whatever is not a scalar value is written as  *)
(* RuneError.                                                              *)
Utf8Of(rr) ==
    LET r == IF IsScalar(rr) THEN rr ELSE RuneError IN
    IF r < 128 THEN <<r>>
    ELSE IF r < 2048 THEN <<192 + r \div 64, 128 + (r % 64)>>
    ELSE IF r < 65536 THEN <<224 + r \div 4096, 128 + ((r \div 64) % 64), 128 + (r % 64)>>
    ELSE <<240 + r \div 262144, 128 + ((r \div 4096) % 64), 128 + ((r \div 64) % 64), 128 + (r % 64)>>

(* All runes of s, in order.                                               *)
RunesOf(s) ==
    FoldLeftDomain(
        LAMBDA acc, i :
            IF i < acc.next THEN acc
            ELSE [next |-> i + UnitLenAt(s, i), out |-> Append(acc.out, RuneAt(s, i))],
        [next |-> 1, out |-> <<>>], s).out

(* The bytes of a sequence of runes.                                       *)
BytesOf(rs) == FoldLeft(LAMBDA acc, r : acc \o Utf8Of(r), <<>>, rs)

(* The last rune of a non-empty s, found by reading s from the left.       *)
LastRune(s) ==
    FoldLeftDomain(
        LAMBDA acc, i :
            IF i < acc.next THEN acc
            ELSE [next |-> i + UnitLenAt(s, i), rune |-> RuneAt(s, i)],
        [next |-> 1, rune |-> RuneError], s).rune

IsValidUtf8(s) ==
    FoldLeftDomain(
        LAMBDA acc, i :
            IF i < acc.next THEN acc
            ELSE [next |-> i + UnitLenAt(s, i), ok |-> acc.ok /\ WellFormedAt(s, i)],
        [next |-> 1, ok |-> TRUE], s).ok
=============================================================================
