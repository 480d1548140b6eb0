-------------------------------- MODULE Utf8 --------------------------------
(* Encoded forms of the characters the stand-ins of Str stand for.          *)
EXTENDS Integers, Sequences, Str, TLC
\* UTF-8, as percent escapes
Utf8Tab == (CharTab.e_acute :> "%C3%A9") @@ (CharTab.E_acute :> "%C3%89") @@ (CharTab.euro :> "%E2%82%AC")
        @@ (CharTab.emoji :> "%F0%9F%98%80") @@ (CharTab.nbsp :> "%C2%A0") @@ (CharTab.linesep :> "%E2%80%A8")
        @@ (CharTab.sharp_s :> "%C3%9F") @@ (CharTab.cjk :> "%E4%B8%AD") @@ (CharTab.ydiaer :> "%C3%BF")
        @@ (CharTab.fullslash :> "%EF%BC%8F") @@ (CharTab.arabic1 :> "%D9%A1") @@ (CharTab.ffi :> "%EF%AC%83")
        @@ (CharTab.repl :> "%EF%BF%BD")
NonAscii == DOMAIN Utf8Tab
Utf8Bytes(c) == IF c \in NonAscii THEN Len(Utf8Tab[c]) \div 3 ELSE 1
RECURSIVE Utf8LenFrom(_, _)
Utf8LenFrom(s, i) == IF i > Len(s) THEN 0 ELSE Utf8Bytes(Ch(s, i)) + Utf8LenFrom(s, i + 1)
Utf8Len(s) == Utf8LenFrom(s, 1)
IsAscii(s) == ~AnyIn(s, NonAscii)
=============================================================================
