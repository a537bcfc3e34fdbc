----------------------------- MODULE TraceCodec -----------------------------
(***************************************************************************)
(* Recorded results of From and To, Bytes and String (C13..C16, C23), and  *)
(* of Transform (C21, C22).  Events:                                       *)
(*   [op |-> "dec", lo, v]     From of the two bytes of code lo + i - 1    *)
(*        gave the bytes v[i]                                              *)
(*   [op |-> "enc", lo, v]     To of rune lo + i - 1 gave the bytes v[i]   *)
(*   [op |-> "encrun", lo, hi] To of each rune lo..hi gave one '?'         *)
(*   [op |-> "conv", kind, s, v, e, kept]  conversion of s gave v and      *)
(*        error e; kept: s was not changed                                 *)
(*   [op |-> "trip", kind, s, m, v]  s converted is m, and that converted  *)
(*        back is v                                                        *)
(*   [op |-> "all", kind, s, v, e]  reading s to its end gave v and e      *)
(*   [op |-> "sunk", kind, s, v, e] writing s, without closing, gave v     *)
(*   [op |-> "big", kind, pre, u, n, post, vp, vu, m, vq, e]  conversion of *)
(*        pre, n times u, and post, each of whole units, gave vp, m times  *)
(*        vu, and vq (MC_Codec!Homomorphic)                                *)
(*   [op |-> "lens", ..., mode, rest, tail, lo, step, m]  the same for each  *)
(*        n = lo + (i - 1) * step: m[i] times vu, then tail for what rest,   *)
(*        a partial unit, becomes; or nothing at all, where m[i] = -2        *)
(*   [op |-> "two", kind, mode, s, v, e]  s went through the conversion and  *)
(*        the other one, and gave v and e                                  *)
(*   [op |-> "singles", kind, u, v]  each u[i], a whole unit, gave v[i]     *)
(*   [op |-> "pairs", kind, x, vx, n, m]  the text of x[i] and each of n[i]  *)
(*        of those units in turn gave vx[i] and what it gave by itself,    *)
(*        m[i] times in turn (MC_Codec!Homomorphic)                        *)
(*   [op |-> "windows", kind, u, v, n, m]  each u[i] gave v[i]; of n texts  *)
(*        made of them, m in turn gave what they give by themselves        *)
(*   [op |-> "tr", ...]        see Transform.tla; clean: src and what is   *)
(*        beyond dst was not changed                                       *)
(***************************************************************************)
EXTENDS Transform, IOUtils, TLC

VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)

Other(kind) == IF kind = "enc" THEN "dec" ELSE "enc"

(* Every unit of s has a code of its own in the other encoding (C15).      *)
Expressible(kind, s) ==
    FoldLeftDomain(
        LAMBDA acc, i :
            IF i < acc.next \/ ~acc.ok THEN acc
            ELSE IF Partial(kind, s, i) THEN [acc EXCEPT !.ok = FALSE]
            ELSE [next |-> i + UnitLen(kind, s, i),
                  ok |-> s[i] < 128 \/
                         (IF kind = "dec" THEN RuneOfCode(s[i] * 256 + s[i+1]) # 0
                          ELSE WellFormedAt(s, i) /\ CodeOfRune(RuneAt(s, i)) # 0)],
        [next |-> 1, ok |-> TRUE], s).ok

(* What a unit becomes: by the conversion, or by it and then the other     *)
(* one, where both have the unit.                                          *)
Becomes(kind, u, v) ==
    IF kind \in {"decback", "encback"}
    THEN Expressible(IF kind = "decback" THEN "dec" ELSE "enc", u) /\ v = u
    ELSE Steps(kind, u) = [out |-> v, part |-> <<>>]
ConvOK(ev) ==
    IF ev.kind \in {"decback", "encback"}
    THEN Becomes(ev.kind, ev.s, ev.v) /\ ev.e = ""
    ELSE OneShotMatch(ev.kind, ev.s, ev.v, ev.e)

Step(ev) ==
    CASE ev.op = "dec" ->
            \A i \in 1..Len(ev.v) :
                LET c == ev.lo + i - 1 IN ev.v[i] = DecodePair(c \div 256, c % 256)
      [] ev.op = "enc" ->
            \A i \in 1..Len(ev.v) :
                LET r == ev.lo + i - 1 IN
                ev.v[i] = EncodeRune(IF IsScalar(r) THEN r ELSE RuneError)
      [] ev.op = "encrun" -> ev.lo > 65535
      [] ev.op = "conv" -> ev.kept /\ ConvOK(ev)
      [] ev.op = "trip" ->
            /\ WholeMatch(ev.kind, ev.s, ev.m, "")
            /\ WholeMatch(Other(ev.kind), ev.m, ev.v, "")
            /\ Expressible(ev.kind, ev.s) => ev.v = ev.s
      [] ev.op = "all" -> WholeMatch(ev.kind, ev.s, ev.v, ev.e)
      [] ev.op = "sunk" -> LET f == StepsMatch(ev.kind, ev.s, ev.v) IN ev.e = "" /\ f.ok /\ f.at = Len(ev.v)
      [] ev.op = "big" ->
            /\ Steps(ev.kind, ev.pre) = [out |-> ev.vp, part |-> <<>>]
            /\ Steps(ev.kind, ev.u) = [out |-> ev.vu, part |-> <<>>]
            /\ Steps(ev.kind, ev.post) = [out |-> ev.vq, part |-> <<>>]
            /\ ev.m = ev.n /\ ev.e = ""
      [] ev.op = "lens" ->
            /\ Steps(ev.kind, ev.pre) = [out |-> ev.vp, part |-> <<>>]
            /\ Steps(ev.kind, ev.u) = [out |-> ev.vu, part |-> <<>>]
            /\ Steps(ev.kind, ev.post) = [out |-> ev.vq, part |-> <<>>]
            /\ Steps(ev.kind, ev.rest) = [out |-> <<>>, part |-> ev.rest]
            /\ ev.e = IF ev.mode = "sunk" THEN "" ELSE FlushErr(ev.kind, ev.rest)
            /\ ev.tail = IF ev.mode = "sunk" THEN <<>> ELSE FlushOut(ev.kind, ev.rest)
            /\ \A i \in 1..Len(ev.m) :
                LET n == ev.lo + (i - 1) * ev.step IN
                IF ev.mode = "oneshot" /\ ev.e # ""
                THEN ev.m[i] = -2 \/ (n = 0 /\ ev.m[i] = 0 /\ ev.vp = <<>> /\ ev.vq = <<>>)
                ELSE ev.m[i] = n
      [] ev.op = "two" ->
            LET a == Whole(ev.kind, ev.s) IN
            /\ ev.e = a.err
            /\ IF ev.mode = "oneshot" /\ ev.e # "" THEN ev.v = <<>>
               ELSE WholeMatch(Other(ev.kind), a.out, ev.v, "")
      [] ev.op = "singles" ->
            \A i \in 1..Len(ev.u) : Becomes(ev.kind, ev.u[i], ev.v[i])
      [] ev.op = "pairs" ->
            \A i \in 1..Len(ev.x) :
                /\ Becomes(ev.kind, ev.x[i], ev.vx[i])
                /\ ev.m[i] = ev.n[i]
      [] ev.op = "windows" ->
            /\ \A i \in 1..Len(ev.u) : Becomes(ev.kind, ev.u[i], ev.v[i])
            /\ ev.m = ev.n
      [] ev.op = "tr" -> ev.clean /\ TransformOK(ev.kind, ev)
      [] OTHER -> FALSE

Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_l
Report == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
