-------------------------------- MODULE Jamo --------------------------------
(***************************************************************************)
(* The modern Korean letters, and their three encodings in Unicode:        *)
(* compatibility jamo U+3131..U+3163, one code point for each letter, and  *)
(* conjoining jamo, one code point for each role (lead, medial, tail) that *)
(* a letter can have.  Letters are named as the package names them; the    *)
(* order of each sequence is Unicode's.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CompatBase == \h3130    \* letter i is at CompatBase + i
LeadBase   == \h10FF    \* lead i is at LeadBase + i
MedialBase == \h1160
TailBase   == \h11A7    \* tail i; i = 0 is "no tail"

Consonants == << "G", "GG", "GS", "N", "NJ", "NH", "D", "DD", "L", "LG", "LM",
                 "LB", "LS", "LT", "LP", "LH", "M", "B", "BB", "BS", "S", "SS",
                 "ZS", "J", "JJ", "C", "K", "T", "P", "H" >>
Vowels     == << "A", "AE", "YA", "YAE", "EO", "E", "YEO", "YE", "O", "WA",
                 "WAE", "OE", "YO", "U", "WEO", "WE", "WI", "YU", "EU", "YI", "I" >>
Letters    == Consonants \o Vowels

Leads   == << "G", "GG", "N", "D", "DD", "L", "M", "B", "BB", "S", "SS", "ZS",
              "J", "JJ", "C", "K", "T", "P", "H" >>
Medials == Vowels
Tails   == << "G", "GG", "GS", "N", "NJ", "NH", "D", "L", "LG", "LM", "LB", "LS",
              "LT", "LP", "LH", "M", "B", "BS", "S", "SS", "ZS", "J", "C", "K",
              "T", "P", "H" >>

LetterSet == {Letters[i] : i \in 1..Len(Letters)}
IndexIn(seq, x) == CHOOSE i \in 1..Len(seq) : seq[i] = x
HasMember(seq, x) == \E i \in 1..Len(seq) : seq[i] = x

(* Compound letters and the basic letters they are written with.           *)
Compound ==
    [ GG  |-> <<"G", "G">>,  GS |-> <<"G", "S">>,  NJ |-> <<"N", "J">>,
      NH  |-> <<"N", "H">>,  DD |-> <<"D", "D">>,  LG |-> <<"L", "G">>,
      LM  |-> <<"L", "M">>,  LB |-> <<"L", "B">>,  LS |-> <<"L", "S">>,
      LT  |-> <<"L", "T">>,  LP |-> <<"L", "P">>,  LH |-> <<"L", "H">>,
      BB  |-> <<"B", "B">>,  BS |-> <<"B", "S">>,  SS |-> <<"S", "S">>,
      JJ  |-> <<"J", "J">>,
      AE  |-> <<"A", "I">>,  YAE |-> <<"YA", "I">>,
      E   |-> <<"EO", "I">>, YE |-> <<"YEO", "I">>,
      WA  |-> <<"O", "A">>,  WAE |-> <<"O", "A", "I">>, OE |-> <<"O", "I">>,
      WEO |-> <<"U", "EO">>, WE |-> <<"U", "EO", "I">>, WI |-> <<"U", "I">>,
      YI  |-> <<"EU", "I">> ]
CompoundLetters == DOMAIN Compound
BasicLetters == LetterSet \ CompoundLetters

(* Pen strokes of the basic letters.                                       *)
BasicStrokes ==
    [ G |-> 1, N |-> 1, D |-> 2, L |-> 3, M |-> 3, B |-> 4, S |-> 2, ZS |-> 1,
      J |-> 3, C |-> 4, K |-> 2, T |-> 3, P |-> 4, H |-> 3,
      A |-> 2, YA |-> 3, EO |-> 2, YEO |-> 3, O |-> 2, YO |-> 3, U |-> 2,
      YU |-> 3, EU |-> 1, I |-> 1 ]

(* What is written with what cannot contradict the letters' list.          *)
ASSUME DOMAIN BasicStrokes = BasicLetters
ASSUME \A c \in CompoundLetters : \A i \in 1..Len(Compound[c]) : Compound[c][i] \in BasicLetters
ASSUME Cardinality(LetterSet) = 51 /\ Len(Leads) = 19 /\ Len(Medials) = 21 /\ Len(Tails) = 27
ASSUME \A i \in 1..19 : HasMember(Consonants, Leads[i])
ASSUME \A i \in 1..27 : HasMember(Consonants, Tails[i])

Code == TLCEval([x \in LetterSet |-> CompatBase + IndexIn(Letters, x)])

LeadCodes   == LeadBase + 1 .. LeadBase + 19
MedialCodes == MedialBase + 1 .. MedialBase + 21
TailCodes   == TailBase + 1 .. TailBase + 27
CompatConsonants == CompatBase + 1 .. CompatBase + 30
CompatVowels     == CompatBase + 31 .. CompatBase + 51
CompatCodes      == CompatBase + 1 .. CompatBase + 51
JamoCodes        == LeadCodes \cup MedialCodes \cup TailCodes \cup CompatCodes

(* The letter that a jamo code point of any kind stands for.               *)
LetterOf == TLCEval([r \in JamoCodes |->
    CASE r \in CompatCodes -> Letters[r - CompatBase]
      [] r \in LeadCodes   -> Leads[r - LeadBase]
      [] r \in MedialCodes -> Medials[r - MedialBase]
      [] r \in TailCodes   -> Tails[r - TailBase]])

(* Inverse: the code point of a letter in a role, 0 if it cannot have it.  *)
LeadCode   == TLCEval([x \in LetterSet |-> IF HasMember(Leads, x)   THEN LeadBase   + IndexIn(Leads, x)   ELSE 0])
MedialCode == TLCEval([x \in LetterSet |-> IF HasMember(Medials, x) THEN MedialBase + IndexIn(Medials, x) ELSE 0])
TailCode   == TLCEval([x \in LetterSet |-> IF HasMember(Tails, x)   THEN TailBase   + IndexIn(Tails, x)   ELSE 0])

(* The exported constants.  The lead form of L is called R, the silent     *)
(* consonant ZS is called NG as a tail, and NG is an alias of ZS.          *)
LeadName(x) == IF x = "L" THEN "LeadR" ELSE "Lead" \o x
TailName(x) == IF x = "ZS" THEN "TailNG" ELSE "Tail" \o x
ConstNames ==
    LetterSet \cup {"NG"} \cup {LeadName(Leads[i]) : i \in 1..19}
    \cup {"Medial" \o Medials[i] : i \in 1..21} \cup {TailName(Tails[i]) : i \in 1..27}
ConstValue == TLCEval([n \in ConstNames |->
    IF n \in LetterSet THEN Code[n]
    ELSE IF n = "NG" THEN Code["ZS"]
    ELSE IF \E i \in 1..19 : LeadName(Leads[i]) = n
         THEN LeadBase + (CHOOSE i \in 1..19 : LeadName(Leads[i]) = n)
    ELSE IF \E i \in 1..21 : "Medial" \o Medials[i] = n
         THEN MedialBase + (CHOOSE i \in 1..21 : "Medial" \o Medials[i] = n)
    ELSE TailBase + (CHOOSE i \in 1..27 : TailName(Tails[i]) = n)])
=============================================================================
