----------------------------- MODULE TraceHanja -----------------------------
(***************************************************************************)
(* Recorded results of package hanja (C11, C12).  Events:                  *)
(*   [op |-> "row", lo, is, v]   IsHanja(lo + i - 1) = is[i], and Convert  *)
(*        of that one rune gave the bytes v[i], given as one rune or, if   *)
(*        they are none, as -1                                             *)
(*   [op |-> "isrun", lo, hi]    IsHanja gave false for all of lo..hi      *)
(*   [op |-> "same", lo, hi]     Convert gave the rune itself for each     *)
(*   [op |-> "conv", s, v]       Convert(s) = v, as bytes                  *)
(*   [op |-> "ctx", x, y, px, py, lo, v] or with rs: Convert of x, a rune   *)
(*        r and y gave px, v and py; r is lo + i - 1 or rs[i]              *)
(*   [op |-> "big", ...]  as in TraceCodec (MC_Hanja!Concatenates)         *)
(*   [op |-> "lens", ...] the same, without rest                           *)
(*   [op |-> "singles", ...], [op |-> "pairs", ...], [op |-> "windows", ...]  *)
(*        as in TraceCodec                                                  *)
(***************************************************************************)
EXTENDS Hanja, IOUtils, TLC

VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
B(x) == IF x THEN 1 ELSE 0
\* what string(r) is, as a rune
AsString(r) == IF IsScalar(r) THEN r ELSE RuneError
None(lo, hi) == hi < HanjaLo \/ lo > HanjaHi

Step(ev) ==
    CASE ev.op = "row" ->
            \A i \in 1..Len(ev.is) :
                LET r == ev.lo + i - 1 IN
                /\ ev.is[i] = B(IsHanja(r))
                /\ ev.v[i] = Convert1(AsString(r))
      [] ev.op = "isrun" -> None(ev.lo, ev.hi)
      [] ev.op = "same"  -> None(ev.lo, ev.hi) /\ IsScalar(ev.lo) /\ IsScalar(ev.hi)
                            /\ ~(ev.lo < 55296 /\ ev.hi > 57343)
      [] ev.op = "ctx" ->
            /\ ev.px = Convert(ev.x) /\ ev.py = Convert(ev.y)
            /\ \A i \in 1..Len(ev.v) :
                ev.v[i] = Convert1(AsString(IF ev.lo = 0 THEN ev.rs[i] ELSE ev.lo + i - 1))
      [] ev.op = "big" ->
            /\ ev.vp = Convert(ev.pre) /\ ev.vu = Convert(ev.u) /\ ev.vq = Convert(ev.post)
            /\ ev.m = ev.n /\ ev.e = ""
      [] ev.op = "lens" ->
            /\ ev.vp = Convert(ev.pre) /\ ev.vu = Convert(ev.u) /\ ev.vq = Convert(ev.post)
            /\ ev.e = "" /\ ev.tail = <<>> /\ ev.rest = <<>>
            /\ \A i \in 1..Len(ev.m) : ev.m[i] = ev.lo + (i - 1) * ev.step
      [] ev.op = "singles" -> \A i \in 1..Len(ev.u) : ev.v[i] = Convert(ev.u[i])
      [] ev.op = "pairs" -> \A i \in 1..Len(ev.x) : ev.vx[i] = Convert(ev.x[i]) /\ ev.m[i] = ev.n[i]
      [] ev.op = "windows" -> (\A i \in 1..Len(ev.u) : ev.v[i] = Convert(ev.u[i])) /\ ev.m = ev.n
      [] ev.op = "conv"  -> ev.v = Convert(ev.s)
      [] OTHER -> FALSE

Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_l
Report == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
