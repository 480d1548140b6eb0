-------------------------------- MODULE Str --------------------------------
(***************************************************************************)
(* Text.  A text is a TLA+ string; TLC evaluates Len, \o and SubSeq on      *)
(* strings, so text operations are ordinary sequence operations.           *)
(*                                                                         *)
(* TLC stores only one byte per character, so characters outside ASCII are *)
(* represented by STAND-INS: control characters 0x0E..0x1A that stand for  *)
(* one fixed non-ASCII character each.  The harness (harness/core.py, enc  *)
(* and dec) translates in both directions; the table Utf8Of below is the   *)
(* specification's knowledge about them.                                   *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE TLC
LOCAL INSTANCE Json
LOCAL INSTANCE IOUtils

\* Characters that have no TLA+ literal, by name; see harness/core.py.
CharTab == JsonDeserialize(IOEnv.CHARTAB)

Ch(s, i) == SubSeq(s, i, i)
Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
CharSet(s) == {SubSeq(s, i, i) : i \in 1..Len(s)}

UpperAlpha == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LowerAlpha == "abcdefghijklmnopqrstuvwxyz"
UpperSet == CharSet(UpperAlpha)
LowerSet == CharSet(LowerAlpha)
AlphaSet == UpperSet \union LowerSet
DigitSet == CharSet("0123456789")
AlnumSet == AlphaSet \union DigitSet

LowerMap == [c \in UpperSet |-> LET i == CHOOSE i \in 1..26 : Ch(UpperAlpha, i) = c IN Ch(LowerAlpha, i)]
UpperMap == [c \in LowerSet |-> LET i == CHOOSE i \in 1..26 : Ch(LowerAlpha, i) = c IN Ch(UpperAlpha, i)]

\* Only strings that contain an upper case letter are rebuilt.
RECURSIVE LowerFrom(_, _)
LowerFrom(s, i) ==
    IF i > Len(s) THEN ""
    ELSE LET c == Ch(s, i) IN (IF c \in UpperSet THEN LowerMap[c] ELSE c) \o LowerFrom(s, i + 1)
Lower(s) == IF \E i \in 1..Len(s) : Ch(s, i) \in UpperSet THEN LowerFrom(s, 1) ELSE s
RECURSIVE UpperFrom(_, _)
UpperFrom(s, i) ==
    IF i > Len(s) THEN ""
    ELSE LET c == Ch(s, i) IN (IF c \in LowerSet THEN UpperMap[c] ELSE c) \o UpperFrom(s, i + 1)
Upper(s) == UpperFrom(s, 1)
SameNoCase(a, b) == Lower(a) = Lower(b)

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
From(s, i) == IF i > Len(s) THEN "" ELSE SubSeq(s, i, Len(s))
UpTo(s, i) == IF i < 1 THEN "" ELSE SubSeq(s, 1, IF i > Len(s) THEN Len(s) ELSE i)
Mid(s, i, j) == IF j < i THEN "" ELSE SubSeq(s, i, j)

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

\* Position of the first occurrence of text p at or after position i; 0 if none.
RECURSIVE FindFrom(_, _, _)
FindFrom(s, p, i) ==
    IF i + Len(p) - 1 > Len(s) THEN 0
    ELSE IF SubSeq(s, i, i + Len(p) - 1) = p THEN i
    ELSE FindFrom(s, p, i + 1)
Find(s, p) == FindFrom(s, p, 1)
\* Last occurrence; 0 if none
RECURSIVE RFindFrom(_, _, _)
RFindFrom(s, p, i) ==
    IF i < 1 THEN 0
    ELSE IF i + Len(p) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(p) - 1) = p THEN i
    ELSE RFindFrom(s, p, i - 1)
RFind(s, p) == RFindFrom(s, p, Len(s))
Contains(s, p) == Find(s, p) # 0

RECURSIVE Split(_, _)
Split(s, sep) ==
    LET i == Find(s, sep)
    IN IF i = 0 THEN <<s>>
       ELSE <<UpTo(s, i - 1)>> \o Split(From(s, i + Len(sep)), sep)
\* at most n splits
RECURSIVE SplitN(_, _, _)
SplitN(s, sep, n) ==
    LET i == Find(s, sep)
    IN IF i = 0 \/ n = 0 THEN <<s>>
       ELSE <<UpTo(s, i - 1)>> \o SplitN(From(s, i + Len(sep)), sep, n - 1)

RECURSIVE JoinFrom(_, _, _)
JoinFrom(q, sep, i) ==
    IF i > Len(q) THEN ""
    ELSE IF i = Len(q) THEN q[i]
    ELSE q[i] \o sep \o JoinFrom(q, sep, i + 1)
Join(q, sep) == JoinFrom(q, sep, 1)

RECURSIVE LStrip(_, _)
LStrip(s, cs) == IF Len(s) > 0 /\ Ch(s, 1) \in cs THEN LStrip(From(s, 2), cs) ELSE s
RECURSIVE RStrip(_, _)
RStrip(s, cs) == IF Len(s) > 0 /\ Ch(s, Len(s)) \in cs THEN RStrip(UpTo(s, Len(s) - 1), cs) ELSE s
Strip(s, cs) == RStrip(LStrip(s, cs), cs)
\* the ASCII white space of str.strip() and of "\s"
White == {" ", "\t", "\n", "\r", "\f", CharTab.vt}

\* Replace every occurrence of (non-empty) text p by r
RECURSIVE ReplaceAll(_, _, _)
ReplaceAll(s, p, r) ==
    LET i == Find(s, p)
    IN IF i = 0 THEN s ELSE UpTo(s, i - 1) \o r \o ReplaceAll(From(s, i + Len(p)), p, r)

\* Map each character through f (an operator giving text)
RECURSIVE MapFrom(_, _, _)
MapFrom(s, f(_), i) == IF i > Len(s) THEN "" ELSE f(Ch(s, i)) \o MapFrom(s, f, i + 1)
MapText(s, f(_)) == MapFrom(s, f, 1)

AllIn(s, cs) == \A i \in 1..Len(s) : Ch(s, i) \in cs
AnyIn(s, cs) == \E i \in 1..Len(s) : Ch(s, i) \in cs
Count(s, c) == Cardinality({i \in 1..Len(s) : Ch(s, i) = c})

RECURSIVE Rep(_, _)
Rep(s, n) == IF n <= 0 THEN "" ELSE s \o Rep(s, n - 1)

\* Decimal numbers
DigitVal == [c \in DigitSet |-> (CHOOSE i \in 1..10 : Ch("0123456789", i) = c) - 1]
RECURSIVE NatOf(_)
NatOf(s) == IF s = "" THEN 0 ELSE 10 * NatOf(UpTo(s, Len(s) - 1)) + DigitVal[Ch(s, Len(s))]
IsNat(s) == s # "" /\ AllIn(s, DigitSet)
RECURSIVE NatText(_)
NatText(n) == IF n < 10 THEN Ch("0123456789", n + 1) ELSE NatText(n \div 10) \o Ch("0123456789", (n % 10) + 1)
IntText(n) == IF n < 0 THEN "-" \o NatText(0 - n) ELSE NatText(n)
Pad0(n, w) == LET t == NatText(n) IN Rep("0", w - Len(t)) \o t

\* Sequence helpers
Filter(q, T(_)) == SelectSeq(q, T)
SeqMap(q, f(_)) == [i \in 1..Len(q) |-> f(q[i])]
IndexSet(q, T(_)) == {i \in 1..Len(q) : T(q[i])}
FirstIdx(q, T(_)) == LET S == IndexSet(q, T) IN IF S = {} THEN 0 ELSE MinOf(S)
RECURSIVE FlattenFrom(_, _)
FlattenFrom(q, i) == IF i > Len(q) THEN <<>> ELSE q[i] \o FlattenFrom(q, i + 1)
Flat(q) == FlattenFrom(q, 1)
RemoveAt(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Range(q) == {q[i] : i \in 1..Len(q)}

\* Results of an operation
Val(v) == [k |-> "val", v |-> v]
Exc(n) == [k |-> "exc", v |-> n]
None == "<None>"
Done == [k |-> "val", v |-> None]
R(s, v) == [st |-> s, ret |-> v]
=============================================================================
