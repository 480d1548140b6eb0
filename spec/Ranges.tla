------------------------------- MODULE Ranges -------------------------------
(* Byte ranges and content ranges.                                          *)
EXTENDS HttpText

\* -1 stands for "no number"; ranges are <<begin, end>>, end not included
Open == -1
Bad == [k |-> "none"]
Digits(s) == s # "" /\ AllIn(s, DigitSet)

\* <<begin, end>> of one element, <<>> if malformed.  A suffix of n bytes is <<-n, Open>>
RangeOf(item) ==
    LET i == Find(item, "-")
        a == Strip(UpTo(item, i - 1), White)
        b == Strip(From(item, i + 1), White)
    IN IF i = 0 THEN <<>>
       ELSE IF i = 1 THEN (IF Digits(From(item, 2)) /\ NatOf(From(item, 2)) > 0 THEN <<0 - NatOf(From(item, 2)), Open>> ELSE <<>>)
       ELSE IF ~Digits(a) \/ (b # "" /\ ~Digits(b)) THEN <<>>
       ELSE IF b = "" THEN <<NatOf(a), Open>>
       ELSE IF NatOf(b) < NatOf(a) THEN <<>>
       ELSE <<NatOf(a), NatOf(b) + 1>>
\* ascending and disjoint; nothing can follow an open one
Follows(r1, r2) == r1[2] # Open /\ (r2[1] < 0 \/ r2[1] >= r1[2])
ParseRange(s) ==
    LET e == Find(s, "=")
        items == Split(From(s, e + 1), ",")
        rs == [i \in 1..Len(items) |-> RangeOf(Strip(items[i], White))]
    IN IF e = 0 \/ \E i \in 1..Len(rs) : rs[i] = <<>> THEN Bad
       ELSE IF \E i \in 1..(Len(rs) - 1) : ~Follows(rs[i], rs[i + 1]) THEN Bad
       ELSE [k |-> "range", units |-> Lower(Strip(UpTo(s, e - 1), White)), ranges |-> rs]
DumpRange(r) ==
    r.units \o "=" \o Join([i \in 1..Len(r.ranges) |->
        LET x == r.ranges[i] IN IF x[2] # Open THEN NatText(x[1]) \o "-" \o NatText(x[2] - 1)
                                ELSE IF x[1] < 0 THEN IntText(x[1]) ELSE NatText(x[1]) \o "-"], ",")
\* what a single range means for a resource of that length, <<>> if nothing
Resolve(r, length) ==
    IF r.k = "none" THEN <<>>
    ELSE IF r.units # "bytes" \/ length = Open \/ Len(r.ranges) # 1 THEN <<>>
    ELSE LET x == r.ranges[1]
             a == IF x[1] >= 0 THEN x[1] ELSE IF x[1] + length < 0 THEN 0 ELSE x[1] + length
             b == IF x[2] = Open \/ x[2] > length THEN length ELSE x[2]
         IN IF a < b THEN <<a, b>> ELSE <<>>

\* content ranges [units, start, stop, length]; Open for absent numbers
ValidRange(start, stop, length) ==
    IF start = Open THEN stop = Open ELSE stop # Open /\ start < stop /\ (length = Open \/ start < length)
DumpContentRange(r) ==
    r.units \o " " \o (IF r.start = Open THEN "*" ELSE NatText(r.start) \o "-" \o NatText(r.stop - 1))
    \o "/" \o (IF r.length = Open THEN "*" ELSE NatText(r.length))
\* int(x) as the code accepts it in the middle of the text
ParseContentRange(s) ==
    LET t == Strip(s, White)
        a == SkipNot(t, 1, White)
        rest == From(t, SkipW(t, a))
        sl == Find(rest, "/")
        rng == UpTo(rest, sl - 1)
        len == From(rest, sl + 1)
        d == Find(rng, "-")
        x == UpTo(rng, d - 1)
        y == From(rng, d + 1)
    IN IF rest = "" \/ sl = 0 \/ (len # "*" /\ ~Digits(len)) THEN Bad
       ELSE LET n == IF len = "*" THEN Open ELSE NatOf(len)
                u == UpTo(t, a - 1)
            IN IF rng = "*" THEN [k |-> "crange", units |-> u, start |-> Open, stop |-> Open, length |-> n]
               ELSE IF d = 0 \/ ~IsPyInt(x) \/ ~IsPyInt(y) THEN Bad
               ELSE IF PyInt(x) >= 0 /\ ValidRange(PyInt(x), PyInt(y) + 1, n)
               THEN [k |-> "crange", units |-> u, start |-> PyInt(x), stop |-> PyInt(y) + 1, length |-> n]
               ELSE Bad
=============================================================================
