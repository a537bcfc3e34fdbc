----------------------------- MODULE TraceHangul ----------------------------
(***************************************************************************)
(* Recorded results of the functions on runes (C01..C07, C10).  A scan     *)
(* calls one function for every rune of a range; its results are recorded  *)
(* as rows of values or as runs of one value or of the rune itself plus a  *)
(* constant.  Events:                                                      *)
(*   [op |-> "scan", f, lo, x]  function f from rune lo; x: further        *)
(*                              arguments (Join)                           *)
(*   [op |-> "row", lo, v]      v[i] is the result for lo + i - 1          *)
(*   [op |-> "run", lo, hi, v]  v is the result for all of lo..hi          *)
(*   [op |-> "shift", lo, hi, v]  f(r) = v + (r - lo) for r in lo..hi      *)
(*   [op |-> "done", hi]        the scan went up to hi                     *)
(*   [op |-> "join", l, m, t, v]  v[i] = Join(l, m, t[i])                  *)
(*   [op |-> "only", f, x, r, v]  of AllJamo, f, which is Join with two    *)
(*                              arguments given, accepts r, and gives v    *)
(*   [op |-> "cube", l, m, t]   of AllJamo and other runes, Join accepted   *)
(*                              m with l and any third argument, and t with *)
(*                              l and any second one                        *)
(*   [op |-> "at", f, r, v]     v[i] = f(r[i]), in any order               *)
(*   [op |-> "back", r, l, m, t, v]  what Split or SplitCompat gave for    *)
(*                              r[i], and Join made of it                  *)
(*   [op |-> "consts", n, v]    the constant named n[i] has value v[i]     *)
(* A result is an integer, or a sequence of integers for Elements.         *)
(***************************************************************************)
EXTENDS Hangul, Json, IOUtils

VARIABLES l, scan
Trace == ndJsonDeserialize(IOEnv.TRACE)

B(x) == IF x THEN 1 ELSE 0
F(f, x, r) ==
    CASE f = "IsLead"     -> B(IsLead(r))
      [] f = "IsMedial"   -> B(IsMedial(r))
      [] f = "IsTail"     -> B(IsTail(r))
      [] f = "IsJaeum"    -> B(IsJaeum(r))
      [] f = "IsMoeum"    -> B(IsMoeum(r))
      [] f = "IsHangul"   -> B(IsHangul(r))
      [] f = "CompatJamo" -> CompatJamo(r)
      [] f = "Lead"       -> LeadOf(r)
      [] f = "Medial"     -> MedialOf(r)
      [] f = "Tail"       -> TailOf(r)
      [] f = "Stroke"     -> Stroke(r)
      [] f = "Split1"     -> Split(r)[1]
      [] f = "Split2"     -> Split(r)[2]
      [] f = "Split3"     -> Split(r)[3]
      [] f = "SplitCompat1" -> SplitCompat(r)[1]
      [] f = "SplitCompat2" -> SplitCompat(r)[2]
      [] f = "SplitCompat3" -> SplitCompat(r)[3]
      [] f = "IsCompound" -> B(IsCompound(r))
      [] f = "Elements"   -> Elements(r)
      [] f = "JoinL"      -> Join(r, x[1], x[2])
      [] f = "JoinM"      -> Join(x[1], r, x[2])
      [] f = "JoinT"      -> Join(x[1], x[2], r)

(* The one result outside of the support (MC_Hangul!OutsideDefault).       *)
JoinNames == {"JoinL", "JoinM", "JoinT"}
Default(f) == IF f \in JoinNames THEN Invalid ELSE IF f = "Elements" THEN <<>> ELSE 0
Support(f) == IF f = "JoinT" THEN (SupportLo..SupportHi) \cup {0} ELSE SupportLo..SupportHi
Within(f, lo, hi) ==
    LET a == IF lo > SupportLo THEN lo ELSE SupportLo
        b == IF hi < SupportHi THEN hi ELSE SupportHi
    IN  (a..b) \cup (IF f = "JoinT" /\ lo <= 0 /\ 0 <= hi THEN {0} ELSE {})
Beyond(lo, hi) == lo < SupportLo \/ hi > SupportHi

AllJamo == (\h10F0..\h11FF) \cup (\h3120..\h318F)
           \cup {0, 1, -1, \hABFF, \hAC00, \hD7A3, \hFFFD, \h11100, \h13131}
(* Whom Join accepts in the place of its argument which is not in x.       *)
AcceptedL == {r \in AllJamo : LeadOf(r) # 0}
AcceptedM == {r \in AllJamo : MedialOf(r) # 0}
AcceptedT == {r \in AllJamo : r = 0 \/ TailOf(r) # 0}
Accepted(f, x) ==
    CASE f = "JoinL" -> IF MedialOf(x[1]) # 0 /\ (x[2] = 0 \/ TailOf(x[2]) # 0) THEN AcceptedL ELSE {}
      [] f = "JoinM" -> IF LeadOf(x[1]) # 0 /\ (x[2] = 0 \/ TailOf(x[2]) # 0) THEN AcceptedM ELSE {}
      [] f = "JoinT" -> IF LeadOf(x[1]) # 0 /\ MedialOf(x[2]) # 0 THEN AcceptedT ELSE {}

NoScan == [f |-> ""]
(* The scan goes on at lo, and reaches hi.                                 *)
Onward(lo, hi) ==
    /\ scan.f # "" /\ lo <= hi
    /\ IF scan.none THEN lo = scan.at ELSE lo = scan.at + 1
    /\ scan' = [scan EXCEPT !.at = hi, !.none = FALSE]

Step(ev) ==
    CASE ev.op = "scan" -> scan = NoScan /\ scan' = [f |-> ev.f, x |-> ev.x, at |-> ev.lo, none |-> TRUE]
      [] ev.op = "row"  ->
            /\ Onward(ev.lo, ev.lo + Len(ev.v) - 1)
            /\ \A i \in 1..Len(ev.v) : ev.v[i] = F(scan.f, scan.x, ev.lo + i - 1)
      [] ev.op = "run"  ->
            /\ Onward(ev.lo, ev.hi)
            /\ Beyond(ev.lo, ev.hi) => (ev.v = Default(scan.f) \/ (scan.f = "JoinT" /\ ev.lo = 0 /\ ev.hi = 0))
            /\ \A r \in Within(scan.f, ev.lo, ev.hi) : F(scan.f, scan.x, r) = ev.v
      [] ev.op = "shift" ->
            /\ Onward(ev.lo, ev.hi)
            /\ ev.lo >= SupportLo /\ ev.hi <= SupportHi
            /\ \A r \in ev.lo..ev.hi : F(scan.f, scan.x, r) = ev.v + (r - ev.lo)
      [] ev.op = "done" -> scan.f # "" /\ scan.at = ev.hi /\ scan' = NoScan
      [] ev.op = "join" ->
            /\ \A i \in 1..Len(ev.t) : ev.v[i] = Join(ev.l, ev.m, ev.t[i])
            /\ UNCHANGED scan
      [] ev.op = "only" ->
            /\ {ev.r[i] : i \in 1..Len(ev.r)} = Accepted(ev.f, ev.x)
            /\ \A i \in 1..Len(ev.r) : ev.v[i] = F(ev.f, ev.x, ev.r[i])
            /\ UNCHANGED scan
      [] ev.op = "cube" ->
            /\ {ev.m[i] : i \in 1..Len(ev.m)} = IF LeadOf(ev.l) # 0 THEN AcceptedM ELSE {}
            /\ {ev.t[i] : i \in 1..Len(ev.t)} = IF LeadOf(ev.l) # 0 THEN AcceptedT ELSE {}
            /\ UNCHANGED scan
      [] ev.op = "at" ->
            /\ \A i \in 1..Len(ev.r) : ev.v[i] = F(ev.f, <<>>, ev.r[i])
            /\ UNCHANGED scan
      [] ev.op = "back" ->
            /\ \A i \in 1..Len(ev.r) :
                /\ <<ev.l[i], ev.m[i], ev.t[i]>> \in {Split(ev.r[i]), SplitCompat(ev.r[i])}
                /\ ev.v[i] = ev.r[i]
            /\ UNCHANGED scan
      [] ev.op = "consts" ->
            /\ {ev.n[i] : i \in 1..Len(ev.n)} = ConstNames
            /\ \A i \in 1..Len(ev.n) : ev.v[i] = ConstValue[ev.n[i]]
            /\ UNCHANGED scan
      [] OTHER -> FALSE

Init == l = 1 /\ scan = NoScan
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_<<l, scan>>
Report == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
