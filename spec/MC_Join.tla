------------------------------ MODULE MC_Join -------------------------------
(***************************************************************************)
(* Checks Join of Hangul.tla (C02, C03) on triples: the first, second and  *)
(* third argument are chosen one after the other.                          *)
(***************************************************************************)
EXTENDS Hangul
CONSTANTS Ls, Ms, Ts
VARIABLES l, m, t, n
vars == <<l, m, t, n>>
Init == l = 0 /\ m = 0 /\ t = 0 /\ n = 0
Next ==
    \/ n = 0 /\ l' \in Ls /\ n' = 1 /\ UNCHANGED <<m, t>>
    \/ n = 1 /\ m' \in Ms /\ n' = 2 /\ UNCHANGED <<l, t>>
    \/ n = 2 /\ t' \in Ts /\ n' = 3 /\ UNCHANGED <<l, m>>
Spec == Init /\ [][Next]_vars

LegalL == LeadCodes \cup {Code[Leads[i]] : i \in 1..19}
LegalM == MedialCodes \cup CompatVowels
LegalT == {0} \cup TailCodes \cup {Code[Tails[i]] : i \in 1..27}
Illegal == {-1, 0, 1, 65, \h10FF, \h1113, \h1160, \h1176, \h11A7, \h11C3, \h3130, \h3164,
            \h3138, \h3143, \h3149, \hABFF, \hAC00, \hD7A3, \hD7A4, \hFFFD, \h11100, \h1AC00,
            2147483647, -2147483647}
AllL == LegalL \cup LegalM \cup LegalT \cup Illegal
SomeM == LegalM \cup Illegal \cup {\h1100, \h11A8, \h3131}
AllT == AllL

Legality == n = 3 => (Join(l, m, t) # Invalid <=> l \in LegalL /\ m \in LegalM /\ t \in LegalT)
Result ==
    n = 3 =>
        LET s == Join(l, m, t) IN
        IF Legal(l, m, t)
        THEN /\ IsSyllable(s)
             /\ Split(s) = <<LeadOf(l), MedialOf(m), IF t = 0 THEN 0 ELSE TailOf(t)>>
        ELSE s = \hFFFD
=============================================================================
