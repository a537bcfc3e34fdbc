----------------------------- MODULE WriterImpl -----------------------------
(***************************************************************************)
(* The algorithm of cp949Writer (encoding/cp949/public.go), with the sink  *)
(* as its environment, beside the contract's variables as ghosts.  `sunk`, *)
(* `acc` keep the whole history: what the sink took and what was accepted. *)
(***************************************************************************)
EXTENDS Writer, TLC

CONSTANTS Alphabet, MaxText, MaxFail, MaxWrites, Bugs

VARIABLES text, fails, writes,    \* environment: rest of the text, budget of failures
          buf, data, out, pc, ev,
          acc, sunk
ivars == <<text, fails, writes, buf, data, out, pc, ev, acc, sunk>>
vars == <<cvars, ivars>>

Texts == UNION {[1..k -> Alphabet] : k \in 0..MaxText}
Init ==
    /\ ContractInit("enc")
    /\ text \in Texts /\ fails = MaxFail /\ writes = 0
    /\ buf = <<>> /\ data = <<>> /\ out = <<>> /\ pc = "idle" /\ ev = [op |-> "new"]
    /\ acc = <<>> /\ sunk = <<>>

(* A Write of the next j bytes of the text, and their conversion.          *)
Write(j) ==
    /\ pc = "idle" /\ writes < MaxWrites /\ j <= Len(text)
    /\ LET b == SubSeq(text, 1, j)
           st == Steps("enc", buf \o b)
           all == st.out \o FlushOut("enc", st.part) IN
       /\ BeginEffect(b) /\ ev' = [op |-> "wbegin", b |-> b]
       /\ data' = b
       /\ out' = IF "NoCarry" \in Bugs THEN all ELSE st.out
       /\ pc' = IF out' # <<>> THEN "sink" ELSE "ok"
       /\ text' = SubSeq(text, j + 1, Len(text))
    /\ writes' = writes + 1
    /\ UNCHANGED <<fails, buf, acc, sunk>>

Sink ==
    /\ pc = "sink"
    /\ \E e \in {"", "FAIL"} :
       /\ e # "" => fails > 0
       /\ fails' = IF e # "" THEN fails - 1 ELSE fails
       /\ SinkEffect(out, e) /\ ev' = [op |-> "sink", b |-> out, e |-> e]
       /\ pc' = IF e = "" THEN "ok" ELSE "fail"
       /\ sunk' = IF e = "" THEN sunk \o out ELSE sunk
    /\ UNCHANGED <<text, writes, buf, data, out, acc>>

Succeed ==
    /\ pc = "ok" /\ pc' = "idle"
    /\ ReturnEffect(Len(data), "") /\ ev' = [op |-> "wret", n |-> Len(data), e |-> ""]
    /\ buf' = IF "NoCarry" \in Bugs THEN <<>> ELSE Steps("enc", buf \o data).part
    /\ acc' = acc \o data
    /\ UNCHANGED <<text, fails, writes, data, out, sunk>>

(* The caller may write the same data again.                               *)
Fail ==
    /\ pc = "fail" /\ pc' = "idle"
    /\ LET n == IF "FailCounts" \in Bugs THEN Len(data) ELSE 0 IN
       ReturnEffect(n, "FAIL") /\ ev' = [op |-> "wret", n |-> n, e |-> "FAIL"]
    /\ buf' = IF "KeepFailed" \in Bugs /\ buf # <<>> THEN buf \o data ELSE buf
    /\ \/ text' = data \o text
       \/ text' = text
    /\ UNCHANGED <<fails, writes, data, out, acc, sunk>>

Next == (\E j \in 0..MaxText : Write(j)) \/ Sink \/ Succeed \/ Fail
Spec == Init /\ [][Next]_vars /\ WF_vars(Sink \/ Succeed \/ Fail)

-----------------------------------------------------------------------------
Refines == [][UNCHANGED cvars \/ Step(ev')]_vars
Consistent == pc = "idle" => part = buf
(* The sink has the encoding of what was accepted, less an incomplete      *)
(* character.                                                              *)
Exact == pc = "idle" => sunk = Steps("enc", acc).out /\ buf = Steps("enc", acc).part
Short == Len(buf) <= 3
Returns == (given # -1) ~> (given = -1)

(* 'A', and the bytes of U+AC00 and of the beginning of a longer sequence   *)
MCAlphabet == {65, 234, 176, 128, 240}
=============================================================================
