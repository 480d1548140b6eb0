------------------------------- MODULE Bytes -------------------------------
(* Octets, and text as UTF-8 or Latin-1.                                    *)
EXTENDS Integers, Sequences, FiniteSets, Str, TLC

HexVal == [c \in CharSet("0123456789ABCDEFabcdef") |->
    LET i == CHOOSE i \in 1..22 : Ch("0123456789ABCDEFabcdef", i) = c IN IF i <= 16 THEN i - 1 ELSE i - 7]
RECURSIVE PctBytes(_)
PctBytes(p) == IF p = "" THEN <<>> ELSE <<16 * HexVal[Ch(p, 2)] + HexVal[Ch(p, 3)]>> \o PctBytes(From(p, 4))
Utf8Of == TLCEval([c \in DOMAIN CharTab.pct |-> PctBytes(CharTab.pct[c])])
CodeTab == TLCEval([c \in DOMAIN CharTab.code |-> CharTab.code[c]])
Codes == TLCEval({CodeTab[c] : c \in DOMAIN CodeTab})
CharOf == TLCEval([n \in Codes |-> CHOOSE c \in DOMAIN CodeTab : CodeTab[c] = n])
\* a code point as text; those without a name are written out
HexDigits == "0123456789ABCDEF"
RECURSIVE HexN(_, _)
HexN(n, w) == IF w = 0 THEN (IF n = 0 THEN "" ELSE HexN(n \div 16, 0) \o Ch(HexDigits, (n % 16) + 1))
              ELSE HexN(n \div 16, w - 1) \o Ch(HexDigits, (n % 16) + 1)
PointText(n) == IF n \in Codes THEN CharOf[n] ELSE "<U+" \o HexN(n, 4) \o ">"
Hex2(n) == Ch(HexDigits, (n \div 16) + 1) \o Ch(HexDigits, (n % 16) + 1)

RECURSIVE EncodeFrom(_, _)
EncodeFrom(s, i) == IF i > Len(s) THEN <<>> ELSE Utf8Of[Ch(s, i)] \o EncodeFrom(s, i + 1)
EncodeUtf8(s) == EncodeFrom(s, 1)
\* characters above U+00FF become question marks
EncodeLatin1(s) == [i \in 1..Len(s) |-> IF CodeTab[Ch(s, i)] < 256 THEN CodeTab[Ch(s, i)] ELSE 63]
EncodeAs(s, charset) == IF charset = "latin-1" THEN EncodeLatin1(s) ELSE EncodeUtf8(s)

RECURSIVE Latin1From(_, _)
Latin1From(b, i) == IF i > Len(b) THEN "" ELSE PointText(b[i]) \o Latin1From(b, i + 1)
DecodeLatin1(b) == Latin1From(b, 1)

\* one UTF-8 sequence at position i: [n |-> octets used, v |-> code point]; -1 if broken
Cont(b, i, lo, hi) == i <= Len(b) /\ b[i] >= lo /\ b[i] <= hi
Seq8(b, i) ==
    LET a == b[i]
        lo == CASE a = 224 -> 160 [] a = 240 -> 144 [] OTHER -> 128
        hi == CASE a = 237 -> 159 [] a = 244 -> 143 [] OTHER -> 191
        C(k) == Cont(b, i + k, IF k = 1 THEN lo ELSE 128, IF k = 1 THEN hi ELSE 191)
    IN IF a < 128 THEN [n |-> 1, v |-> a]
       ELSE IF a >= 194 /\ a <= 223 THEN (IF C(1) THEN [n |-> 2, v |-> (a - 192) * 64 + b[i + 1] - 128] ELSE [n |-> 1, v |-> -1])
       ELSE IF a >= 224 /\ a <= 239 THEN
            (IF ~C(1) THEN [n |-> 1, v |-> -1] ELSE IF ~C(2) THEN [n |-> 2, v |-> -1]
             ELSE [n |-> 3, v |-> (a - 224) * 4096 + (b[i + 1] - 128) * 64 + b[i + 2] - 128])
       ELSE IF a >= 240 /\ a <= 244 THEN
            (IF ~C(1) THEN [n |-> 1, v |-> -1] ELSE IF ~C(2) THEN [n |-> 2, v |-> -1] ELSE IF ~C(3) THEN [n |-> 3, v |-> -1]
             ELSE [n |-> 4, v |-> (a - 240) * 262144 + (b[i + 1] - 128) * 4096 + (b[i + 2] - 128) * 64 + b[i + 3] - 128])
       ELSE [n |-> 1, v |-> -1]
\* every broken sequence becomes one U+FFFD
RECURSIVE DecodeFrom(_, _)
DecodeFrom(b, i) ==
    IF i > Len(b) THEN ""
    ELSE LET q == Seq8(b, i) IN PointText(IF q.v = -1 THEN 65533 ELSE q.v) \o DecodeFrom(b, i + q.n)
DecodeUtf8(b) == DecodeFrom(b, 1)
RECURSIVE ValidFrom(_, _)
ValidFrom(b, i) == i > Len(b) \/ LET q == Seq8(b, i) IN q.v # -1 /\ ValidFrom(b, i + q.n)
ValidUtf8(b) == ValidFrom(b, 1)
=============================================================================
