------------------------------ MODULE MC_Hanja ------------------------------
(***************************************************************************)
(* Checks Hanja.tla (C11): texts grow piece by piece; and its dictionary   *)
(* (C12) against the order of KS X 1001.                                   *)
(***************************************************************************)
EXTENDS Hanja, CP949, FiniteSets
CONSTANTS Pieces, MaxPieces
VARIABLES s, n, last
vars == <<s, n, last>>
Init == s = <<>> /\ n = 0 /\ last = <<>>
Next == n < MaxPieces /\ \E p \in Pieces : s' = s \o p /\ n' = n + 1 /\ last' = p
Spec == Init /\ [][Next]_vars

OneByOne ==
    LET a == RunesOf(s)  b == RunesOf(Convert(s)) IN
    /\ Len(a) = Len(b)
    /\ \A i \in 1..Len(a) :
        /\ b[i] = Convert1(a[i])
        /\ IsHanja(a[i]) <=> b[i] # a[i]
        /\ IsHanja(a[i]) => b[i] \in \hAC00..\hD7A3
        /\ ~IsHanja(b[i])
    /\ Convert(Convert(s)) = Convert(s)
    /\ IsValidUtf8(Convert(s))
    /\ \A k \in 1..4 : ConvertBy(k, s) = Convert(s)
Concatenates ==
    [][IsValidUtf8(s) \/ IsValidUtf8(last') => Convert(s') = Convert(s) \o Convert(last')]_vars

(* pieces: hanja U+5927, U+3400 (first of the dictionary), U+FA29 (last), a
   compatibility ideograph without entry, '가', 'A', U+20000, U+FFFD, bytes of
   a broken character                                                      *)
MCPieces == {Utf8Of(r) : r \in {\h5927, \h3400, \hFA29, \hF914, \hAC00, 65, \h20000, RuneError}}
            \cup {<<229>>, <<164, 167>>, <<255>>}

(* The standard's hanja have codes CAA1..FDFE, in the order of readings.    *)
StdCodes == {c \in \hCAA1..\hFDFE : RuneOfCode(c) # 0}
Entries == {c \in StdCodes : IsHanja(RuneOfCode(c))}
(* Characters with several readings which the standard files under another
   one than the dictionary's.                                              *)
Others == {\h4E32, \h5ED3, \h91D1, \h62CF, \h8AFE, \h5BE7, \h6012, \h574D, \h5B85,
           \h4E0D, \h6A02, \h7570, \h6CCC}
StdReadings == SelectSeq([i \in 1..(\hFDFE - \hCAA1 + 1) |->
                            IF (\hCAA1 + i - 1) \in Entries /\ RuneOfCode(\hCAA1 + i - 1) \notin Others
                            THEN Reading(RuneOfCode(\hCAA1 + i - 1)) ELSE 0],
                         LAMBDA x : x # 0)
ASSUME Cardinality(StdCodes) = 4888
ASSUME Len(StdReadings) = 4620 - 13
ASSUME \A i \in 1..(Len(StdReadings) - 1) : StdReadings[i] <= StdReadings[i+1]
ASSUME Cardinality({i \in 1..Len(ReadingTab) : ReadingTab[i] # 0}) = 27496
ASSUME \A i \in 1..Len(ReadingTab) : ReadingTab[i] = 0 \/ ReadingTab[i] \in \hAC00..\hD7A3
=============================================================================
