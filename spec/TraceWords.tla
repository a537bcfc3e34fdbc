----------------------------- MODULE TraceWords -----------------------------
(***************************************************************************)
(* Recorded results of the functions on words (C08, C09).  Events:         *)
(*   [op |-> "last", pre, r, v, e]  LastConsonant and EndsWithConsonant of *)
(*        pre followed by rune r[i] gave v[i] and e[i]                     *)
(*   [op |-> "lastrun", pre, lo, hi]  for each rune from lo to hi, none of *)
(*        them a syllable, they gave 0 and false (MC_Words!LastOnly)       *)
(*   [op |-> "word", w, v, e]       the same for any bytes w               *)
(*   [op |-> "app", w, a, b, v]     AppendPostposition(w, a, b) = v        *)
(*   [op |-> "apprun", r, a, b, took]  AppendPostposition of the one-rune  *)
(*        word r[i] gave the word followed by a (1) or b (0)               *)
(*   [op |-> "wordbig", u, n, w, v, e]  as "word", of n times u and w,     *)
(*        where u is valid UTF-8 and w begins with a character             *)
(*   [op |-> "appbig", u, n, w, a, b, m, v]  AppendPostposition of that     *)
(*        gave m times u, and v (both by MC_Words!NoInfluence)             *)
(*   [op |-> "wordrow", w, v, e, n, m]  as "word", of each of n valid       *)
(*        characters and w: m of them in turn gave v and e                 *)
(*   [op |-> "approw", w, a, b, v, n, m]  AppendPostposition of each such   *)
(*        word gave, m times in turn, the character and v                  *)
(***************************************************************************)
EXTENDS Words, Json, IOUtils

VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
B(x) == IF x THEN 1 ELSE 0

Step(ev) ==
    CASE ev.op = "last" ->
            \A i \in 1..Len(ev.r) :
                LET w == ev.pre \o Utf8Of(ev.r[i]) IN
                ev.v[i] = LastConsonant(w) /\ ev.e[i] = B(EndsWithConsonant(w))
      [] ev.op = "lastrun" -> ev.hi < SylBase \/ ev.lo > SylLast
      [] ev.op = "word" -> ev.v = LastConsonant(ev.w) /\ ev.e = B(EndsWithConsonant(ev.w))
      [] ev.op = "wordbig" -> /\ ev.w # <<>> /\ IsValidUtf8(ev.u)
                              /\ ev.v = LastConsonant(ev.w) /\ ev.e = B(EndsWithConsonant(ev.w))
      [] ev.op = "appbig" -> /\ ev.w # <<>> /\ IsValidUtf8(ev.u)
                             /\ ev.m = ev.n /\ ev.v = AppendPostposition(ev.w, ev.a, ev.b)
      [] ev.op = "wordrow" -> /\ ev.w # <<>> /\ ev.m = ev.n
                              /\ ev.v = LastConsonant(ev.w) /\ ev.e = B(EndsWithConsonant(ev.w))
      [] ev.op = "approw" -> ev.w # <<>> /\ ev.m = ev.n /\ ev.v = AppendPostposition(ev.w, ev.a, ev.b)
      [] ev.op = "app" -> ev.v = AppendPostposition(ev.w, ev.a, ev.b)
      [] ev.op = "apprun" ->
            /\ ev.a # ev.b
            /\ \A i \in 1..Len(ev.r) : ev.took[i] = B(TakesWith(Utf8Of(ev.r[i]), ev.a))
      [] OTHER -> FALSE

Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_l
Report == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
