---------------------------- MODULE CallsForever ----------------------------
(***************************************************************************)
(* CallsImpl for any number of calls: callers also forget what they own,   *)
(* and memory that nobody can reach is used again, as a garbage collector  *)
(* does.  Not more than MaxLive slices are held at a time.                 *)
(***************************************************************************)
EXTENDS CallsImpl
CONSTANT MaxLive

Reachable(ids) ==
    {a \in DOMAIN heap : a <= 0} \cup {addr[i] : i \in ids} \cup free \cup {memo[x] : x \in DOMAIN memo}
    \cup {run[c].to : c \in {k \in Clients : "to" \in DOMAIN run[k]}}
Forget(id) ==
    /\ ~InUse(id) /\ \A c \in Clients : run[c].pc = "have" => run[c].arg # id
    /\ Drop(id) /\ ev' = [op |-> "drop", id |-> id]
    /\ addr' = Restrict(addr, DOMAIN addr \ {id})
    /\ heap' = Restrict(heap, Reachable(DOMAIN addr \ {id}))
    /\ calls' = 0 /\ writes' = 0
    /\ UNCHANGED <<free, memo, lock, run>>
NextForever ==
    \/ \E c \in Clients : (Cardinality(DOMAIN addr) < MaxLive /\ \E x \in Values : Make(c, x))
                          \/ Call(c) \/ Get(c) \/ Fill(c) \/ Return(c)
    \/ \E id \in DOMAIN addr : Overwrite(id) \/ Forget(id)
SpecForever == Init /\ [][NextForever]_vars
=============================================================================
