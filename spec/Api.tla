-------------------------------- MODULE Api ---------------------------------
(***************************************************************************)
(* What every function of the three packages gives for its arguments, in a *)
(* uniform shape, for Calls.tla.  Truth values are 1 and 0.  r is the      *)
(* result, s the content of the slice or string which it has, if any.      *)
(***************************************************************************)
EXTENDS Words, Codec, Hanja

B(x) == IF x THEN <<1>> ELSE <<0>>
R(x) == [r |-> x, s |-> <<>>]
T(x) == [r |-> x, s |-> x]
Errs == [x \in {"", Truncated} |-> IF x = "" THEN 0 ELSE 1]
OneShotResult(kind, s) ==
    LET o == OneShot(kind, s) IN [r |-> <<Errs[o.err]>> \o o.out, s |-> o.out]

Api(f, a) ==
    CASE f = "IsLead"       -> R(B(IsLead(a[1])))
      [] f = "IsMedial"     -> R(B(IsMedial(a[1])))
      [] f = "IsTail"       -> R(B(IsTail(a[1])))
      [] f = "IsJaeum"      -> R(B(IsJaeum(a[1])))
      [] f = "IsMoeum"      -> R(B(IsMoeum(a[1])))
      [] f = "IsHangul"     -> R(B(IsHangul(a[1])))
      [] f = "CompatJamo"   -> R(<<CompatJamo(a[1])>>)
      [] f = "Lead"         -> R(<<LeadOf(a[1])>>)
      [] f = "Medial"       -> R(<<MedialOf(a[1])>>)
      [] f = "Tail"         -> R(<<TailOf(a[1])>>)
      [] f = "Stroke"       -> R(<<Stroke(a[1])>>)
      [] f = "Split"        -> R(Split(a[1]))
      [] f = "SplitCompat"  -> R(SplitCompat(a[1]))
      [] f = "Join"         -> R(<<Join(a[1], a[2], a[3])>>)
      [] f = "SplitMultiElement" ->
            [r |-> B(IsCompound(a[1])) \o Elements(a[1]), s |-> Elements(a[1])]
      [] f = "LastConsonant"     -> R(<<LastConsonant(a[1])>>)
      [] f = "EndsWithConsonant" -> R(B(EndsWithConsonant(a[1])))
      [] f = "AppendPostposition" -> T(AppendPostposition(a[1], a[2], a[3]))
      [] f = "IsHanja" -> R(B(IsHanja(a[1])))
      [] f = "Convert" -> T(Convert(a[1]))
      [] f = "From"    -> OneShotResult("dec", a[1])
      [] f = "To"      -> OneShotResult("enc", a[1])
      \* a Reader or Writer used from beginning to end, and Bytes of x/text
      [] f = "Reader"  -> LET w == Whole("dec", a[1]) IN R(<<Errs[w.err]>> \o w.out)
      [] f = "Writer"  -> R(Steps("enc", a[1]).out)
      [] f = "Decode"  -> OneShotResult("dec", a[1])
      [] f = "Encode"  -> OneShotResult("enc", a[1])
=============================================================================
