------------------------------ MODULE MC_Codec ------------------------------
(***************************************************************************)
(* Checks CP949.tla and Codec.tla (C13..C16): the tables once, and the     *)
(* machine on texts that grow byte by byte.                                *)
(***************************************************************************)
EXTENDS Codec, FiniteSets
CONSTANTS Alphabets, MaxLen
VARIABLES kind, s
vars == <<kind, s>>
Init == kind \in Kinds /\ s = <<>>
Next == Len(s) < MaxLen /\ (\E b \in Alphabets[kind] : s' = Append(s, b)) /\ UNCHANGED kind
Spec == Init /\ [][Next]_vars

(* The tables are inverse to each other.                                   *)
Codes == {c \in 32768..65535 : RuneOfCode(c) # 0}
Repertoire == {r \in 128..65535 : CodeOfRune(r) # 0}
ASSUME Cardinality(Codes) = 17048 /\ Cardinality(Repertoire) = 17048
ASSUME \A c \in Codes : CodeOfRune(RuneOfCode(c)) = c
ASSUME \A r \in Repertoire : RuneOfCode(CodeOfRune(r)) = r /\ IsScalar(r)
ASSUME \A c \in Codes : c \div 256 >= 129 /\ c % 256 >= 65
ASSUME \A r \in \hAC00..\hD7A3 : r \in Repertoire

(* Consuming a text byte by byte from the part that was left gives the     *)
(* same as consuming it at once.                                           *)
Incremental ==
    [][LET a == Steps(kind, s)  b == Steps(kind, a.part \o <<s'[Len(s')]>>)
       IN  Steps(kind, s') = [out |-> a.out \o b.out, part |-> b.part]]_vars
(* and so does cutting it anywhere *)
Cuttable ==
    \A i \in 0..Len(s) :
        LET a == Steps(kind, SubSeq(s, 1, i))
            b == Steps(kind, a.part \o SubSeq(s, i + 1, Len(s)))
        IN  Steps(kind, s) = [out |-> a.out \o b.out, part |-> b.part]
(* Conversion at a boundary is a homomorphism (C16).                       *)
Homomorphic ==
    \A i \in 0..Len(s) :
        LET p == SubSeq(s, 1, i)  q == SubSeq(s, i + 1, Len(s)) IN
        Steps(kind, p).part = <<>> =>
            Whole(kind, s) = [out |-> Whole(kind, p).out \o Whole(kind, q).out,
                              err |-> Whole(kind, q).err]
PartIsShort ==
    LET p == Steps(kind, s).part IN
    IF kind = "dec" THEN Len(p) <= 1 ELSE Len(p) <= 3
DecodesToUtf8 == kind = "dec" => IsValidUtf8(Whole(kind, s).out)
Errors ==
    LET o == OneShot(kind, s) IN
    /\ kind = "enc" => o.err = ""
    /\ o.err # "" => o.out = <<>> /\ Steps(kind, s).part # <<>>
    /\ o.err = "" /\ kind = "dec" => Steps(kind, s).part = <<>>
(* C15 *)
Expressible(k, x) ==
    IF k = "enc" THEN IsValidUtf8(x) /\ \A i \in 1..Len(RunesOf(x)) :
                          LET r == RunesOf(x)[i] IN r < 128 \/ CodeOfRune(r) # 0
    ELSE LET w == Whole(k, x) IN w.err = "" /\ ~\E i \in 1..Len(RunesOf(w.out)) : RunesOf(w.out)[i] = RuneError
Other(k) == IF k = "dec" THEN "enc" ELSE "dec"
Lossless == Expressible(kind, s) => Whole(Other(kind), Whole(kind, s).out) = [out |-> s, err |-> ""]
Blocks == \A k \in 1..3 : StepsBy(k, kind, s) = Steps(kind, s)
(* The linear time comparisons are the same as the plain ones.             *)
Fast ==
    LET w == Whole(kind, s)  o == OneShot(kind, s) IN
    /\ WholeMatch(kind, s, w.out, w.err)
    /\ OneShotMatch(kind, s, o.out, o.err)
    /\ ~WholeMatch(kind, s, Append(w.out, 0), w.err)
    /\ w.out # <<>> => ~WholeMatch(kind, s, SubSeq(w.out, 1, Len(w.out) - 1), w.err)

(* b0 a1 '가', b0 41 and 41.. hangul out of KS X 1001, ff no lead;          *)
(* ea b0 80 '가', f0 9f 98 80 supplementary                                 *)
MCAlphabets == [dec |-> {65, 161, 176, 255}, enc |-> {65, 234, 176, 128, 240, 159}]
=============================================================================
