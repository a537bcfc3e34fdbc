----------------------------- MODULE MC_Hangul ------------------------------
(***************************************************************************)
(* Checks that the functions of Hangul.tla have the properties C01..C07    *)
(* and C10 state: a scan over runes, one state for each.                   *)
(***************************************************************************)
EXTENDS Hangul

CONSTANTS Starts,   \* first runes of the blocks that are scanned
          Width     \* length of a block

VARIABLES r, start
vars == <<r, start>>

Init == start \in Starts /\ r = start
Next == r < start + Width - 1 /\ r' = r + 1 /\ UNCHANGED start
Spec == Init /\ [][Next]_vars

(* Every function of one rune is at its default outside of the support;    *)
(* the trace specification relies on this for long runs of equal results.  *)
OutsideDefault ==
    (r < SupportLo \/ r > SupportHi) =>
        /\ ~IsLead(r) /\ ~IsMedial(r) /\ ~IsTail(r) /\ ~IsJaeum(r) /\ ~IsMoeum(r) /\ ~IsHangul(r)
        /\ CompatJamo(r) = 0 /\ LeadOf(r) = 0 /\ MedialOf(r) = 0 /\ TailOf(r) = 0
        /\ Split(r) = <<0,0,0>> /\ SplitCompat(r) = <<0,0,0>>
        /\ Elements(r) = <<>> /\ ~IsCompound(r) /\ Stroke(r) = 0
        /\ \A x \in {0, \h1100, \h1161, \h11A8, \h3131, \h314F, r} :
             /\ Join(r, \h1161, x) = Invalid /\ Join(\h1100, r, x) = Invalid
             /\ Join(r, x, 0) = Invalid      /\ Join(x, r, 0) = Invalid
             /\ r # 0 => Join(\h1100, x, r) = Invalid /\ Join(x, \h1161, r) = Invalid

Classes ==
    /\ IsLead(r)   <=> r >= \h1100 /\ r <= \h1112
    /\ IsMedial(r) <=> r >= \h1161 /\ r <= \h1175
    /\ IsTail(r)   <=> r >= \h11A8 /\ r <= \h11C2
    /\ IsJaeum(r)  <=> IsLead(r) \/ IsTail(r) \/ (r >= \h3131 /\ r <= \h314E)
    /\ IsMoeum(r)  <=> IsMedial(r) \/ (r >= \h314F /\ r <= \h3163)
    /\ IsHangul(r) <=> IsJaeum(r) \/ IsMoeum(r) \/ (r >= \hAC00 /\ r <= \hD7A3)
    /\ ~(IsJaeum(r) /\ IsMoeum(r))

SplitJoin ==
    IsSyllable(r) =>
        LET s == Split(r)  c == SplitCompat(r) IN
        /\ IsLead(s[1]) /\ IsMedial(s[2]) /\ (s[3] = 0 \/ IsTail(s[3]))
        /\ Join(s[1], s[2], s[3]) = r
        /\ c[1] \in CompatConsonants /\ c[2] \in CompatVowels /\ (c[3] = 0 \/ c[3] \in CompatConsonants)
        /\ Join(c[1], c[2], c[3]) = r
        \* canonical decomposition, as the Unicode standard computes it
        /\ s[1] = \h1100 + (r - \hAC00) \div 588
        /\ s[2] = \h1161 + ((r - \hAC00) % 588) \div 28
        /\ LET t == \h11A7 + ((r - \hAC00) % 28) IN s[3] = (IF t = \h11A7 THEN 0 ELSE t)

NonSyllables == ~IsSyllable(r) => Split(r) = <<0,0,0>> /\ SplitCompat(r) = <<0,0,0>>

Conversions ==
    LET c == CompatJamo(r)  a == LeadOf(r)  b == MedialOf(r)  d == TailOf(r) IN
    /\ c \in CompatCodes \cup {0} /\ (c # 0 <=> IsJaeum(r) \/ IsMoeum(r))
    /\ CompatJamo(c) = c                                    \* idempotent
    /\ a # 0 => IsLead(a)   /\ LeadOf(a) = a   /\ CompatJamo(a) = c
    /\ b # 0 => IsMedial(b) /\ MedialOf(b) = b /\ CompatJamo(b) = c
    /\ d # 0 => IsTail(d)   /\ TailOf(d) = d   /\ CompatJamo(d) = c
    /\ IsLead(r)   => a = r /\ LeadOf(c) = r
    /\ IsMedial(r) => b = r /\ MedialOf(c) = r
    /\ IsTail(r)   => d = r /\ TailOf(c) = r
    /\ r \in CompatConsonants => b = 0 /\ (a # 0 \/ d # 0)
    /\ r \in CompatVowels => a = 0 /\ d = 0 /\ b # 0

Compounds ==
    LET e == Elements(r) IN
    /\ IsCompound(r) <=> Len(e) \in {2, 3}
    /\ ~IsCompound(r) <=> e = <<>>
    /\ \A i \in 1..Len(e) : e[i] \in CompatCodes /\ ~IsCompound(e[i])
    /\ Elements(CompatJamo(r)) = e
    /\ \A i \in 1..Len(e) : IsJaeum(e[i]) <=> IsJaeum(r)

Strokes ==
    /\ Stroke(r) >= 0
    /\ Stroke(r) = 0 <=> ~IsHangul(r)
    /\ IsJamo(r) => Stroke(CompatJamo(r)) = Stroke(r)
    /\ IsCompound(r) =>
         Stroke(r) = FoldLeft(LAMBDA x, e : x + Stroke(e), 0, Elements(r))
    /\ IsSyllable(r) =>
         Stroke(r) = LET s == Split(r) IN Stroke(s[1]) + Stroke(s[2]) + Stroke(s[3])

(* C10.  State independent.                                                *)
Constants ==
    /\ Cardinality(ConstNames) = 119
    /\ \A n \in ConstNames : ConstValue[n] \in JamoCodes
    /\ \A i \in 1..19 : CompatJamo(ConstValue[LeadName(Leads[i])]) = ConstValue[Leads[i]]
    /\ \A i \in 1..21 : CompatJamo(ConstValue["Medial" \o Medials[i]]) = ConstValue[Medials[i]]
    /\ \A i \in 1..27 : CompatJamo(ConstValue[TailName(Tails[i])]) = ConstValue[Tails[i]]
    /\ \A m, n \in ConstNames : ConstValue[m] = ConstValue[n] => m = n \/ {m, n} = {"NG", "ZS"}
ConstantsAtStart == r = start => Constants

(* Blocks of 256: everything around the support and at the ends of the      *)
(* int32 range; and every code point.                                      *)
MCWidth == 256
Near == {256 * k : k \in {-1, 0, 1} \cup 14..52 \cup 170..218 \cup {255, 256, 428, 4351, 4352, -8388608, 8388607}}
All  == {256 * k : k \in -16..4367 \cup {-8388608, 8388607}}
=============================================================================
