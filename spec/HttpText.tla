------------------------------ MODULE HttpText ------------------------------
(* Quoting of header values, option lists and integers in header text.      *)
EXTENDS Integers, Sequences, FiniteSets, Str

TokenSet == AlnumSet \union CharSet("!#$%&'*+-.^_`|~")

QuoteBody(v) == ReplaceAll(ReplaceAll(v, "\\", "\\\\"), "\"", "\\\"")
Quoted(v) == "\"" \o QuoteBody(v) \o "\""
QuoteExtra(v, extra) == IF v # "" /\ AllIn(v, TokenSet \union extra) THEN v ELSE Quoted(v)
Quote(v) == QuoteExtra(v, {})

\* Reversal of Quote (the browser-compatible form, applied to one value)
IsQuoted(v) == v # "" /\ Ch(v, 1) = "\"" /\ Ch(v, Len(v)) = "\""
UnquoteBody(b) == ReplaceAll(ReplaceAll(b, "\\\\", "\\"), "\\\"", "\"")
\* file names that look like network paths are left alone
Unquote(v, isfile) ==
    IF ~IsQuoted(v) THEN v
    ELSE LET b == Mid(v, 2, Len(v) - 1) IN IF isfile /\ StartsWith(b, "\\\\") THEN b ELSE UnquoteBody(b)

\* Elements of a comma separated list.  Commas inside of quotes do not
\* separate, a backslash inside of quotes takes the next character as it is.
RECURSIVE ListFrom(_, _, _, _)
ListFrom(s, i, part, quoted) ==
    IF i > Len(s) THEN (IF part = "" THEN <<>> ELSE <<part>>)
    ELSE LET c == Ch(s, i) IN
         IF quoted /\ c = "\\" THEN (IF i = Len(s) THEN ListFrom(s, i + 1, part, TRUE) ELSE ListFrom(s, i + 2, part \o Ch(s, i + 1), TRUE))
         ELSE IF c = "\"" THEN ListFrom(s, i + 1, part \o c, ~quoted)
         ELSE IF c = "," /\ ~quoted THEN <<part>> \o ListFrom(s, i + 1, "", FALSE)
         ELSE ListFrom(s, i + 1, part \o c, quoted)
Elements(s) == LET q == ListFrom(s, 1, "", FALSE) IN [i \in 1..Len(q) |-> Strip(q[i], White)]
\* the quotes around an element; escapes are already resolved
Bare(v) == IF IsQuoted(v) THEN Mid(v, 2, Len(v) - 1) ELSE v
ParseList(s) == LET q == Elements(s) IN [i \in 1..Len(q) |-> Bare(q[i])]
DumpList(q) == Join([i \in 1..Len(q) |-> Quote(q[i])], ", ")

\* Dictionaries as sequences of <<key, value>>, None for a bare key; a later
\* entry replaces the value of an earlier one.
DictPut(d, k, v) ==
    LET S == {i \in 1..Len(d) : d[i][1] = k}
    IN IF S = {} THEN Append(d, <<k, v>>) ELSE [d EXCEPT ![MinOf(S)] = <<k, v>>]
RECURSIVE DictOf(_, _, _)
DictOf(q, i, d) ==
    IF i > Len(q) THEN d
    ELSE LET e == Find(q[i], "=")
         IN DictOf(q, i + 1, IF e = 0 THEN DictPut(d, q[i], None) ELSE DictPut(d, UpTo(q[i], e - 1), Bare(From(q[i], e + 1))))
ParseDict(s) == DictOf(Elements(s), 1, <<>>)
DumpDict(d) == Join([i \in 1..Len(d) |-> IF d[i][2] = None THEN d[i][1] ELSE d[i][1] \o "=" \o Quote(d[i][2])], ", ")
DictSet(d) == [SET |-> {d[i] : i \in 1..Len(d)}]

\* Options: value; name=value; ...  Pieces that are not options are skipped.
RECURSIVE SkipW(_, _)
SkipW(s, i) == IF i <= Len(s) /\ Ch(s, i) \in White THEN SkipW(s, i + 1) ELSE i
RECURSIVE SkipNot(_, _, _)
SkipNot(s, i, cs) == IF i <= Len(s) /\ Ch(s, i) \notin cs THEN SkipNot(s, i + 1, cs) ELSE i
\* position behind the quoted string that starts at i; 0 if it has no end
RECURSIVE QuoteEnd(_, _)
QuoteEnd(s, i) ==
    IF i > Len(s) THEN 0
    ELSE IF Ch(s, i) = "\"" THEN i + 1
    ELSE IF Ch(s, i) = "\\" THEN (IF i = Len(s) THEN 0 ELSE QuoteEnd(s, i + 2))
    ELSE QuoteEnd(s, i + 1)
QuotedAt(s, i) == i <= Len(s) /\ Ch(s, i) = "\"" /\ QuoteEnd(s, i + 1) # 0
NoPiece == [ok |-> FALSE, k |-> "", v |-> None, next |-> 0]
\* the piece that starts with the semicolon at position i
Piece(s, i) ==
    LET a == SkipW(s, i + 1)
        b == IF QuotedAt(s, a) THEN QuoteEnd(s, a + 1) ELSE SkipNot(s, a, White \union {";", "="})
    IN IF b = a THEN NoPiece
       ELSE LET k == Unquote(Mid(s, a, b - 1), FALSE)
                c == SkipW(s, b)
                eq == c <= Len(s) /\ Ch(s, c) = "="
                d == IF eq THEN SkipW(s, c + 1) ELSE c
                e == IF ~eq THEN d ELSE IF QuotedAt(s, d) THEN QuoteEnd(s, d + 1) ELSE SkipNot(s, d, {";"})
                \* nothing but blanks behind the equals sign: the last blank is the value
                d2 == IF eq /\ e = d /\ d > c + 1 THEN d - 1 ELSE d
            IN IF eq /\ e > d2
               THEN [ok |-> TRUE, k |-> k, v |-> Unquote(Mid(s, d2, e - 1), k = "filename"), next |-> e]
               ELSE [ok |-> TRUE, k |-> k, v |-> None, next |-> b]
RECURSIVE PiecesFrom(_, _)
PiecesFrom(s, i) ==
    LET j == SkipNot(s, i, {";"})
    IN IF j > Len(s) THEN <<>>
       ELSE LET p == Piece(s, j) IN IF p.ok THEN << <<p.k, p.v>> >> \o PiecesFrom(s, p.next) ELSE PiecesFrom(s, j + 1)
RECURSIVE MergeOpts(_, _, _)
MergeOpts(q, i, d) == IF i > Len(q) THEN d ELSE MergeOpts(q, i + 1, DictPut(d, q[i][1], q[i][2]))
ParseOptions(s) ==
    LET q == IF s = "" THEN <<>> ELSE PiecesFrom(";" \o s, 1)
    IN IF q = <<>> THEN [name |-> "", opts |-> <<>>] ELSE [name |-> q[1][1], opts |-> MergeOpts(Tail(q), 1, <<>>)]

\* options: sequence of <<name, value>>, value None for a bare name
DumpOptions(header, options) ==
    Join((IF header = None THEN <<>> ELSE <<header>>) \o
         [i \in 1..Len(options) |->
            IF options[i][2] = None THEN options[i][1]
            ELSE options[i][1] \o "=" \o Quote(options[i][2])], "; ")

\* int(text) of Python, for ASCII text without underscores
PyIntBody(s) == LET t == Strip(s, White) IN IF Len(t) > 0 /\ Ch(t, 1) \in {"-", "+"} THEN From(t, 2) ELSE t
IsPyInt(s) == IsNat(PyIntBody(s))
PyInt(s) == LET n == NatOf(PyIntBody(s)) IN IF Ch(Strip(s, White), 1) = "-" THEN 0 - n ELSE n
=============================================================================
