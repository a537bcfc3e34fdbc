----------------------------- MODULE CallsImpl ------------------------------
(***************************************************************************)
(* Ways for a package to find memory for the slices it returns, under      *)
(* callers who run at the same time and overwrite what they own.  Only     *)
(* fresh memory for each call keeps the contract of Calls.tla; each of the *)
(* others is an interleaving or a history away from breaking it:           *)
(*   fresh    a new slice for each call                                    *)
(*   table    the slice in the package's own table                         *)
(*   scratch  one buffer of the package for all calls                      *)
(*   lock     the same, filled under a lock                                *)
(*   pool     a buffer from a pool, to which it goes back when the call    *)
(*            returns it                                                   *)
(*   memo     the slice that an earlier call with equal arguments returned *)
(*   alias    the argument's own memory                                    *)
(* The function takes a slice of one cell x and gives <<x + 1, x + 2>>     *)
(* (alias: gives what is in the argument's memory when it returns), cell   *)
(* by cell.                                                                *)
(***************************************************************************)
EXTENDS Calls, FiniteSets
CONSTANTS Clients, Values, MaxCalls, MaxWrites, Policy

VARIABLES heap,     \* address -> cells
          addr,     \* id -> address
          free,     \* pool
          memo,     \* value -> address
          lock, run, calls, writes, ev
ivars == <<heap, addr, free, memo, lock, run, calls, writes, ev>>
vars == <<cvars, ivars>>

Pure(f, a) == LET x == a[1][1] IN
    IF f = "id" THEN [r |-> <<x>>, s |-> <<x>>] ELSE [r |-> <<x + 1, x + 2>>, s |-> <<x + 1, x + 2>>]
F == IF Policy = "alias" THEN "id" ELSE "inc"

Scratch == 0
TableOf(x) == -x                      \* addresses below 0: the package's table
(* The least positive number that is not in S.                             *)
Least(S) == CHOOSE n \in 1..(Cardinality(S) + 1) : n \notin S /\ \A m \in 1..(n - 1) : m \in S
New == Least(DOMAIN heap)
NewId == Least(DOMAIN addr)

Init ==
    /\ ContractInit
    /\ heap = [a \in {Scratch} \cup {TableOf(x) : x \in Values \cup {91}} |->
                 IF a = Scratch THEN <<0, 0>> ELSE <<1 - a, 2 - a>>]
    /\ addr = Nothing /\ free = {} /\ memo = Nothing /\ lock = 0
    /\ run = [c \in Clients |-> [pc |-> "idle"]]
    /\ calls = 0 /\ writes = 0 /\ ev = [op |-> "init"]

(* A caller makes its argument and calls.                                  *)
Make(c, x) ==
    /\ run[c].pc = "idle" /\ calls < MaxCalls
    /\ Alloc(NewId, <<x>>) /\ ev' = [op |-> "alloc", id |-> NewId, v |-> <<x>>]
    /\ heap' = (New :> <<x>>) @@ heap /\ addr' = (NewId :> New) @@ addr
    /\ run' = [run EXCEPT ![c] = [pc |-> "have", arg |-> NewId]]
    /\ calls' = calls + 1
    /\ UNCHANGED <<free, memo, lock, writes>>
Call(c) ==
    /\ run[c].pc = "have"
    /\ LET a == <<heap[addr[run[c].arg]]>> IN
       /\ Begin(c, F, a, run[c].arg)
       /\ ev' = [op |-> "begin", c |-> c, f |-> F, a |-> a, arg |-> run[c].arg]
    /\ run' = [run EXCEPT ![c] = [pc |-> "get", arg |-> run[c].arg]]
    /\ UNCHANGED <<heap, addr, free, memo, lock, calls, writes>>

Arg(c) == heap[addr[run[c].arg]][1]
Go(c, pc, to) == run' = [run EXCEPT ![c] = [pc |-> pc, arg |-> run[c].arg, to |-> to]]
Fresh(c) == heap' = (New :> <<0, 0>>) @@ heap /\ Go(c, "fill1", New)
Get(c) ==
    /\ run[c].pc = "get"
    /\ CASE Policy = "fresh" -> Fresh(c) /\ UNCHANGED <<free, memo, lock>>
         [] Policy = "alias" -> Go(c, "ret", addr[run[c].arg]) /\ UNCHANGED <<heap, free, memo, lock>>
         [] Policy = "table" -> Go(c, "ret", TableOf(Arg(c))) /\ UNCHANGED <<heap, free, memo, lock>>
         [] Policy = "scratch" -> Go(c, "fill1", Scratch) /\ UNCHANGED <<heap, free, memo, lock>>
         [] Policy = "lock" -> lock = 0 /\ lock' = c /\ Go(c, "fill1", Scratch) /\ UNCHANGED <<heap, free, memo>>
         [] Policy = "pool" ->
              IF free = {} THEN Fresh(c) /\ UNCHANGED <<free, memo, lock>>
              ELSE \E a \in free : free' = free \ {a} /\ Go(c, "fill1", a) /\ UNCHANGED <<heap, memo, lock>>
         [] Policy = "memo" ->
              IF Arg(c) \in DOMAIN memo
              THEN Go(c, "ret", memo[Arg(c)]) /\ UNCHANGED <<heap, free, memo, lock>>
              ELSE Fresh(c) /\ UNCHANGED <<free, memo, lock>>
    /\ UNCHANGED <<cvars, addr, calls, writes, ev>>
Fill(c) ==
    /\ run[c].pc \in {"fill1", "fill2"}
    /\ LET k == IF run[c].pc = "fill1" THEN 1 ELSE 2 IN
       /\ heap' = [heap EXCEPT ![run[c].to][k] = Arg(c) + k]
       /\ Go(c, IF k = 1 THEN "fill2" ELSE "ret", run[c].to)
    /\ UNCHANGED <<cvars, addr, free, memo, lock, calls, writes, ev>>
Return(c) ==
    /\ run[c].pc = "ret"
    /\ LET a == run[c].to IN
       /\ ev' = [op |-> "end", c |-> c, r |-> heap[a], id |-> NewId]
       \* as End, for whatever the result is
       /\ held' = (NewId :> Pure(busy[c].f, busy[c].a).s) @@ held
       /\ busy' = Restrict(busy, DOMAIN busy \ {c})
       /\ addr' = (NewId :> a) @@ addr
       /\ free' = IF Policy = "pool" THEN free \cup {a} ELSE free
       /\ memo' = IF Policy = "memo" THEN (Arg(c) :> a) @@ memo ELSE memo
       /\ lock' = IF lock = c THEN 0 ELSE lock
    /\ run' = [run EXCEPT ![c] = [pc |-> "idle"]]
    /\ UNCHANGED <<heap, calls, writes>>

(* The owner of a slice reads or overwrites it; not while a call has it.   *)
Look(id) ==
    /\ ev' = [op |-> "peek", id |-> id, v |-> heap[addr[id]]]
    /\ ev' # ev
    /\ UNCHANGED <<cvars, heap, addr, free, memo, lock, run, calls, writes>>
Overwrite(id) ==
    /\ writes < MaxWrites /\ ~InUse(id)
    /\ LET v == [i \in DOMAIN heap[addr[id]] |-> 90 + i] IN
       /\ Write(id, v) /\ ev' = [op |-> "write", id |-> id, v |-> v]
       /\ heap' = [heap EXCEPT ![addr[id]] = v]
    /\ writes' = writes + 1
    /\ UNCHANGED <<addr, free, memo, lock, run, calls>>

Next == \/ \E c \in Clients : (\E x \in Values : Make(c, x)) \/ Call(c) \/ Get(c) \/ Fill(c) \/ Return(c)
        \/ \E id \in DOMAIN addr : Look(id) \/ Overwrite(id)
Spec == Init /\ [][Next]_vars
Refines == [][ev' = ev \/ Step(ev')]_vars
Owned == \A id \in DOMAIN held : heap[addr[id]] = held[id]
=============================================================================
