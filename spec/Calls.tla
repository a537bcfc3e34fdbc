------------------------------- MODULE Calls --------------------------------
(***************************************************************************)
(* Calls as their callers see them (C24, C25): what a call gives depends   *)
(* on its arguments only, and every slice belongs to whoever got or made   *)
(* it.  Expect(f, a) is what function f gives for arguments a in a fresh   *)
(* program, as [r |-> result, s |-> content of the slice it returns].      *)
(* Events:                                                                 *)
(*   [op |-> "alloc", id, v]    a caller makes a slice with content v      *)
(*   [op |-> "begin", c, f, a, arg]  caller c calls f; if arg is not 0,    *)
(*                              its argument is the slice with that id     *)
(*   [op |-> "end", c, r, id]   c's call gives r; the slice in the result, *)
(*                              if any, gets the id                        *)
(*   [op |-> "write", id, v]    the owner overwrites a slice               *)
(*   [op |-> "peek", id, v]     the owner reads a slice                    *)
(*   [op |-> "drop", id]        the owner forgets a slice                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANT Expect(_, _)
VARIABLES held,     \* content of every slice, as its owner left it
          busy      \* calls under way
cvars == <<held, busy>>

Nothing == [x \in {} |-> 0]
ContractInit == held = Nothing /\ busy = Nothing
Restrict(f, S) == [x \in S |-> f[x]]

InUse(id) == \E c \in DOMAIN busy : busy[c].arg = id

Alloc(id, v) == id \notin DOMAIN held /\ held' = (id :> v) @@ held /\ UNCHANGED busy
Begin(c, f, a, arg) ==
    /\ c \notin DOMAIN busy
    /\ arg # 0 => arg \in DOMAIN held /\ a = <<held[arg]>>
    /\ busy' = (c :> [f |-> f, a |-> a, arg |-> arg]) @@ busy
    /\ UNCHANGED held
End(c, r, id) ==
    /\ c \in DOMAIN busy
    /\ LET x == Expect(busy[c].f, busy[c].a) IN
       /\ r = x.r
       /\ IF id = 0 THEN UNCHANGED held
          ELSE id \notin DOMAIN held /\ held' = (id :> x.s) @@ held
    /\ busy' = Restrict(busy, DOMAIN busy \ {c})
Write(id, v) == /\ id \in DOMAIN held /\ Len(v) = Len(held[id])
                /\ ~InUse(id)       \* callers' own duty
                /\ held' = [held EXCEPT ![id] = v] /\ UNCHANGED busy
Peek(id, v) == id \in DOMAIN held /\ held[id] = v /\ UNCHANGED cvars
Drop(id) == id \in DOMAIN held /\ held' = Restrict(held, DOMAIN held \ {id}) /\ UNCHANGED busy

Step(ev) ==
    CASE ev.op = "alloc" -> Alloc(ev.id, ev.v)
      [] ev.op = "begin" -> Begin(ev.c, ev.f, ev.a, ev.arg)
      [] ev.op = "end"   -> End(ev.c, ev.r, ev.id)
      [] ev.op = "write" -> Write(ev.id, ev.v)
      [] ev.op = "peek"  -> Peek(ev.id, ev.v)
      [] ev.op = "drop"  -> Drop(ev.id)
      [] OTHER -> FALSE
=============================================================================
