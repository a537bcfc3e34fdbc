------------------------------- MODULE Hangul -------------------------------
(***************************************************************************)
(* The functions of package hangul on runes.  A rune is any integer.       *)
(***************************************************************************)
EXTENDS Jamo, SequencesExt

SylBase == \hAC00
SylLast == \hD7A3
IsSyllable(r) == r >= SylBase /\ r <= SylLast
Invalid == \hFFFD

(* C01 *)
IsLead(r)   == r \in LeadCodes
IsMedial(r) == r \in MedialCodes
IsTail(r)   == r \in TailCodes
IsJaeum(r)  == r \in LeadCodes \/ r \in TailCodes \/ r \in CompatConsonants
IsMoeum(r)  == r \in MedialCodes \/ r \in CompatVowels
IsHangul(r) == IsSyllable(r) \/ IsJaeum(r) \/ IsMoeum(r)

(* C05.  CompatJamo is defined on every jamo; each of Lead, Medial, Tail   *)
(* accepts its own role and compatibility jamo.                            *)
IsJamo(r) == r \in JamoCodes
CompatJamo(r) == IF IsJamo(r) THEN Code[LetterOf[r]] ELSE 0
LeadOf(r)   == IF r \in LeadCodes   THEN r ELSE IF r \in CompatCodes THEN LeadCode[LetterOf[r]]   ELSE 0
MedialOf(r) == IF r \in MedialCodes THEN r ELSE IF r \in CompatCodes THEN MedialCode[LetterOf[r]] ELSE 0
TailOf(r)   == IF r \in TailCodes   THEN r ELSE IF r \in CompatCodes THEN TailCode[LetterOf[r]]   ELSE 0

(* C02, C04 *)
Split(c) ==
    IF ~IsSyllable(c) THEN <<0, 0, 0>>
    ELSE LET x == c - SylBase
             t == x % 28
         IN  << LeadBase + 1 + x \div 588,
                MedialBase + 1 + (x % 588) \div 28,
                IF t = 0 THEN 0 ELSE TailBase + t >>
SplitCompat(c) == LET s == Split(c) IN <<CompatJamo(s[1]), CompatJamo(s[2]), CompatJamo(s[3])>>

(* C03 *)
Legal(l, m, t) == LeadOf(l) # 0 /\ MedialOf(m) # 0 /\ (t = 0 \/ TailOf(t) # 0)
Join(l, m, t) ==
    IF ~Legal(l, m, t) THEN Invalid
    ELSE SylBase + ((LeadOf(l) - LeadBase - 1) * 21 + (MedialOf(m) - MedialBase - 1)) * 28
                 + (IF t = 0 THEN 0 ELSE TailOf(t) - TailBase)

(* C06 *)
IsCompound(r) == IsJamo(r) /\ LetterOf[r] \in CompoundLetters
Elements(r) ==
    IF IsCompound(r)
    THEN LET e == Compound[LetterOf[r]] IN [i \in 1..Len(e) |-> Code[e[i]]]
    ELSE <<>>

(* C07 *)
LetterStrokes == TLCEval([x \in LetterSet |->
    IF x \in BasicLetters THEN BasicStrokes[x]
    ELSE FoldLeft(LAMBDA a, e : a + BasicStrokes[e], 0, Compound[x])])
JamoStroke(r) == IF IsJamo(r) THEN LetterStrokes[LetterOf[r]] ELSE 0
Stroke(r) ==
    IF IsSyllable(r)
    THEN LET s == Split(r) IN JamoStroke(s[1]) + JamoStroke(s[2]) + JamoStroke(s[3])
    ELSE JamoStroke(r)

(* Runes on which any function of one rune can be other than its default;  *)
(* see MC_Hangul!OutsideDefault.                                           *)
SupportLo == LeadBase + 1
SupportHi == SylLast
=============================================================================
