------------------------------ MODULE MC_Words ------------------------------
(***************************************************************************)
(* Checks Words.tla (C08, C09): words grow byte by byte.                   *)
(***************************************************************************)
EXTENDS Words
CONSTANTS Alphabet, MaxLen, Posts
VARIABLE w
Init == w = <<>>
Next == Len(w) < MaxLen /\ \E b \in Alphabet : w' = Append(w, b)
Spec == Init /\ [][Next]_w

Syll(r) == IsSyllable(r) /\ (r - SylBase) % 28 # 0

LastOnly ==
    /\ w = <<>> => LastConsonant(w) = 0
    /\ w # <<>> =>
        LET rs == RunesOf(w)  last == rs[Len(rs)] IN
        /\ last = LastRune(w)
        /\ LastConsonant(w) = LastConsonant(Utf8Of(last))
        /\ (LastConsonant(w) # 0) <=> Syll(last)
        /\ LastConsonant(w) # 0 => IsTail(LastConsonant(w))
        /\ EndsWithConsonant(w) <=> LastConsonant(w) # 0
(* A prefix that ends between characters has no influence.                 *)
NoInfluence ==
    \A i \in 1..(Len(w) - 1) :
        LET p == SubSeq(w, 1, i)  q == SubSeq(w, i + 1, Len(w)) IN
        (IsValidUtf8(p) \/ q[1] < 128 \/ SizeOf(q[1]) > 0) => LastConsonant(w) = LastConsonant(q)
Chosen ==
    \A a, b \in Posts :
        LET out == AppendPostposition(w, a, b) IN
        /\ IsPrefix(w, out)
        /\ SubSeq(out, Len(w) + 1, Len(out)) \in {a, b}
        /\ ~EndsWithConsonant(w) => out = w \o b
        /\ EndsWithConsonant(w) /\ a # Euro => out = w \o a
        /\ EndsWithConsonant(w) /\ a = Euro => out = w \o (IF LastConsonant(w) = \h11AF THEN b ELSE a)

(* '가' ea b0 80, '각' ea b0 81, '갈' ea b0 88; 'A'; no continuation, no lead *)
MCAlphabet == {65, 234, 176, 128, 129, 136, 255}
MCPosts == {<<>>, Euro, BytesOf(<<\hB85C>>), BytesOf(<<\hC774>>), <<65>>}
=============================================================================
