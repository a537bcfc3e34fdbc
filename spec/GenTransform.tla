---------------------------- MODULE GenTransform ----------------------------
(* All arguments of Transform that TransformImpl explores, with its        *)
(* results, for replay against the code.                                   *)
EXTENDS TransformImpl, Json
Emit == done => PrintT("BEHAVIOUR " \o ToJson([kind |-> kind] @@ Result))
=============================================================================
