-------------------------------- MODULE Url --------------------------------
(* Percent encoding.  CharTab.pct maps every character the specification    *)
(* knows to its percent-encoded UTF-8 form, CharTab.pct1 to its Latin-1 one. *)
EXTENDS Integers, Sequences, FiniteSets, Str

UrlUnreserved == AlnumSet \union CharSet("_.-~")
PctTable(cs) == IF cs = "latin-1" THEN CharTab.pct1 ELSE CharTab.pct
QuoteUrl(s, safe, cs) ==
    LET T == PctTable(cs)
        keep == UrlUnreserved \union safe
    IN MapText(s, LAMBDA c : IF c \in keep THEN c ELSE T[c])
QuotePlus(s, cs) ==
    LET T == PctTable(cs)
    IN MapText(s, LAMBDA c : IF c \in UrlUnreserved THEN c ELSE IF c = " " THEN "+" ELSE T[c])

\* Percent decoding of text produced by the encoder above (valid sequences
\* only; anything else stays as it is)
HexChars == CharSet("0123456789abcdefABCDEF")
RECURSIVE UnquoteFrom(_, _, _)
UnquoteFrom(s, T, i) ==
    IF i > Len(s) THEN ""
    ELSE IF Ch(s, i) # "%" THEN Ch(s, i) \o UnquoteFrom(s, T, i + 1)
    ELSE LET S == {c \in DOMAIN T : LET p == T[c] IN i + Len(p) - 1 <= Len(s) /\ Upper(SubSeq(s, i, i + Len(p) - 1)) = p}
         IN IF S = {} THEN "%" \o UnquoteFrom(s, T, i + 1)
            ELSE LET c == CHOOSE c \in S : TRUE IN c \o UnquoteFrom(s, T, i + Len(T[c]))
UnquoteUrl(s, cs) == IF Contains(s, "%") THEN UnquoteFrom(s, PctTable(cs), 1) ELSE s

\* Order of printable ASCII text
CodeOf == [c \in DOMAIN CharTab.code |-> CharTab.code[c]]
RECURSIVE TextLess(_, _)
TextLess(a, b) ==
    IF b = "" THEN FALSE
    ELSE IF a = "" THEN TRUE
    ELSE IF Ch(a, 1) = Ch(b, 1) THEN TextLess(From(a, 2), From(b, 2))
    ELSE CharTab.code[Ch(a, 1)] < CharTab.code[Ch(b, 1)]
\* stable insertion sort of <<key, x>> pairs by key
RECURSIVE InsertByKey(_, _)
InsertByKey(q, p) ==
    IF q = <<>> THEN <<p>>
    ELSE IF TextLess(p[1], q[1][1]) THEN <<p>> \o q
    ELSE <<q[1]>> \o InsertByKey(Tail(q), p)
RECURSIVE SortPairs(_)
SortPairs(q) == IF q = <<>> THEN <<>> ELSE InsertByKey(SortPairs(SubSeq(q, 1, Len(q) - 1)), q[Len(q)])
EncodeQuery(pairs, cs) ==
    Join([i \in 1..Len(pairs) |-> QuotePlus(pairs[i][1], cs) \o "=" \o QuotePlus(pairs[i][2], cs)], "&")
=============================================================================
