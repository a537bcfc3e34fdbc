-------------------------------- MODULE CP949 -------------------------------
(***************************************************************************)
(* The CP949 (Unified Hangul Code) character set.  DecTab[c - 32767] is    *)
(* the rune of the two-byte code c in 0x8000..0xFFFF, EncTab[r + 1] the    *)
(* two-byte code of rune r in 0..0xFFFF; 0 where there is none.  Both      *)
(* arrays were made from an implementation independent of the package      *)
(* (see tools/gen_data.py).                                                *)
(***************************************************************************)
EXTENDS Utf8, Json

DecTab == JsonDeserialize("data/cp949_dec.json")
EncTab == JsonDeserialize("data/cp949_enc.json")

Question == 63

RuneOfCode(c) == DecTab[c - 32767]
CodeOfRune(r) == IF r >= 128 /\ r <= 65535 THEN EncTab[r + 1] ELSE 0

(* C13: the UTF-8 form of a two-byte sequence.                             *)
DecodePair(hi, lo) ==
    LET r == RuneOfCode(hi * 256 + lo) IN Utf8Of(IF r = 0 THEN RuneError ELSE r)

(* C14: the CP949 form of a rune.                                          *)
EncodeRune(r) ==
    IF r >= 0 /\ r < 128 THEN <<r>>
    ELSE LET c == CodeOfRune(r) IN IF c = 0 THEN <<Question>> ELSE <<c \div 256, c % 256>>
=============================================================================
