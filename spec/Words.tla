-------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* The functions of package hangul on words.  A word is any sequence of    *)
(* bytes.                                                                  *)
(***************************************************************************)
EXTENDS Hangul, Utf8

SylTail(r) == Split(r)[3]

(* C08 *)
LastConsonant(w) == IF w = <<>> THEN 0 ELSE SylTail(LastRune(w))
EndsWithConsonant(w) == LastConsonant(w) # 0

(* C09.  U+C73C U+B85C is the postposition whose long form is not used     *)
(* after rieul.                                                            *)
Euro  == BytesOf(<<\hC73C, \hB85C>>)
Rieul == TailCode["L"]
TakesWith(w, with) == EndsWithConsonant(w) /\ ~(with = Euro /\ LastConsonant(w) = Rieul)
AppendPostposition(w, with, without) == w \o (IF TakesWith(w, with) THEN with ELSE without)
=============================================================================
