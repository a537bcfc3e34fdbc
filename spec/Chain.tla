-------------------------------- MODULE Chain --------------------------------
(***************************************************************************)
(* Contract of the package's Reader and Writer put together (C27): what is *)
(* written through a Writer comes through a channel to a Reader (kinds     *)
(* "enc", "dec"), or what a Reader gives is copied to a Writer ("dec",     *)
(* "enc").  Events:                                                        *)
(*   [op |-> "give", b, e]   bytes b go in: a Write begins, or the source  *)
(*                           gives them, with error e                      *)
(*   [op |-> "get", b]       bytes b come out: a Read gives them, or the   *)
(*                           sink gets them                                *)
(*   [op |-> "quiet"]        nobody is at work and the far end asks for    *)
(*                           more                                          *)
(*   [op |-> "end", e]       the far end says that this was all            *)
(***************************************************************************)
EXTENDS Codec

VARIABLES
    first, second,   \* kinds of conversion
    half1, half2,    \* incomplete characters between
    todo,            \* has to come out
    fail             \* error of the source
chvars == <<first, second, half1, half2, todo, fail>>

ChainInit(k) ==
    /\ first = k /\ second = (IF k = "enc" THEN "dec" ELSE "enc")
    /\ half1 = <<>> /\ half2 = <<>> /\ todo = <<>> /\ fail = ""
ChainReset(k) ==
    /\ first' = k /\ second' = (IF k = "enc" THEN "dec" ELSE "enc")
    /\ half1' = <<>> /\ half2' = <<>> /\ todo' = <<>> /\ fail' = ""

GiveIn(b, e) ==
    LET a == Steps(first, half1 \o b)
        z == Steps(second, half2 \o a.out) IN
    /\ half1' = a.part /\ half2' = z.part /\ todo' = todo \o z.out
    /\ fail' = e
    /\ UNCHANGED <<first, second>>
CanGive == fail = ""

CanGet(b) == IsPrefix(b, todo)
GetOut(b) ==
    /\ todo' = SubSeq(todo, Len(b) + 1, Len(todo))
    /\ UNCHANGED <<first, second, half1, half2, fail>>

CanBeQuiet == todo = <<>>

(* A Writer has no end at which it could give up an incomplete character.  *)
LastError ==
    IF fail \notin {"", "EOF"} THEN fail
    ELSE IF first = "dec" /\ half1 # <<>> THEN Truncated ELSE ""
CanEnd(e) == todo = <<>> /\ e = LastError

ChainStep(ev) ==
    CASE ev.op = "give"  -> CanGive /\ GiveIn(ev.b, ev.e)
      [] ev.op = "get"   -> CanGet(ev.b) /\ GetOut(ev.b)
      [] ev.op = "quiet" -> CanBeQuiet /\ UNCHANGED chvars
      [] ev.op = "end"   -> CanEnd(ev.e) /\ UNCHANGED chvars
      [] OTHER -> FALSE
=============================================================================
