---------------------------- MODULE ChainForever ----------------------------
(***************************************************************************)
(* ChainImpl for texts of any length: more comes in as long as not more    *)
(* than MaxFlight bytes are on the way.  Of what came out, nothing is      *)
(* kept: Identity then follows from Keeps (Chain!todo) and is checked for  *)
(* the lengths of ChainImpl only.                                          *)
(***************************************************************************)
EXTENDS ChainImpl

CONSTANT MaxFlight
Refill ==
    /\ text = <<>> /\ fail = "" /\ rserr = "" /\ ~closed
    /\ Len(chan) + Len(todo) + Len(hold) + Len(wexp) <= MaxFlight
    /\ text' \in UNION {[1..n -> Alphabets[first]] : n \in 1..MaxText}
    /\ reads' = 0 /\ writes' = 0 /\ whole' = <<>> /\ got' = <<>>
    /\ UNCHANGED <<chvars, ending, chan, closed, hold, stop, ev, wv, rv>>
NextForever == Next \/ Refill
SpecForever == Init /\ [][NextForever]_vars
=============================================================================
