------------------------------- MODULE Writer -------------------------------
(***************************************************************************)
(* Contract of a converting io.Writer (C19, C20, and C23 for the writers   *)
(* of x/text).  Events:                                                    *)
(*   [op |-> "wbegin", b]    a Write of bytes b begins                     *)
(*   [op |-> "sink", b, e]   the sink is given bytes b and reports error e *)
(*   [op |-> "wret", n, e]   the Write reports n and error e               *)
(*   [op |-> "cbegin"], [op |-> "cret", e]   Close, of x/text's writers    *)
(***************************************************************************)
EXTENDS Codec

VARIABLES
    kind,
    part,      \* incomplete character at the end of what was written
    exp,       \* what the sink has still to be given in this call
    npart,     \* part after this call if it succeeds
    given,     \* length of the call's argument; -1: no call, -2: Close
    failed     \* the sink's error in this call
cvars == <<kind, part, exp, npart, given, failed>>

ContractInit(k) ==
    kind = k /\ part = <<>> /\ exp = <<>> /\ npart = <<>> /\ given = -1 /\ failed = ""
ContractReset(k) ==
    kind' = k /\ part' = <<>> /\ exp' = <<>> /\ npart' = <<>> /\ given' = -1 /\ failed' = ""

CanBegin(b) == given = -1
BeginEffect(b) ==
    LET st == Steps(kind, part \o b) IN
    /\ exp' = st.out /\ npart' = st.part /\ given' = Len(b)
    /\ UNCHANGED <<kind, part, failed>>

CanSink(b, e) == given # -1 /\ failed = "" /\ IsPrefix(b, exp)
SinkEffect(b, e) ==
    /\ exp' = SubSeq(exp, Len(b) + 1, Len(exp))
    /\ failed' = e
    /\ UNCHANGED <<kind, part, npart, given>>

CanReturn(n, e) ==
    /\ given >= 0
    /\ e = failed
    /\ IF failed = "" THEN exp = <<>> /\ n = given ELSE n = 0
ReturnEffect(n, e) ==
    /\ part' = IF failed = "" THEN npart ELSE part
    /\ exp' = <<>> /\ npart' = <<>> /\ given' = -1 /\ failed' = ""
    /\ UNCHANGED kind

CanClose == given = -1
CloseEffect ==
    /\ exp' = FlushOut(kind, part) /\ given' = -2
    /\ UNCHANGED <<kind, part, npart, failed>>
CanCloseReturn(e) == given = -2 /\ exp = <<>> /\ failed = "" /\ e = FlushErr(kind, part)
CloseReturnEffect(e) ==
    /\ part' = <<>> /\ given' = -1 /\ UNCHANGED <<kind, exp, npart, failed>>

Step(ev) ==
    CASE ev.op = "wbegin" -> CanBegin(ev.b) /\ BeginEffect(ev.b)
      [] ev.op = "sink"   -> CanSink(ev.b, ev.e) /\ SinkEffect(ev.b, ev.e)
      [] ev.op = "wret"   -> CanReturn(ev.n, ev.e) /\ ReturnEffect(ev.n, ev.e)
      [] ev.op = "cbegin" -> CanClose /\ CloseEffect
      [] ev.op = "cret"   -> CanCloseReturn(ev.e) /\ CloseReturnEffect(ev.e)
      [] OTHER -> FALSE
=============================================================================
