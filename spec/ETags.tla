------------------------------- MODULE ETags -------------------------------
(* Entity tags: a tag is [v, weak].  Lists of tags in header text.           *)
EXTENDS HttpText, TLC

QuoteTag(v, weak) == (IF weak THEN "w/" ELSE "") \o "\"" \o v \o "\""
Prefixed(s) == Len(s) >= 2 /\ UpTo(s, 2) \in {"w/", "W/"}
StripQuotes(s) == IF s # "" /\ Ch(s, 1) = "\"" /\ Ch(s, Len(s)) = "\"" THEN Mid(s, 2, Len(s) - 1) ELSE s
\* text of a single tag -> tag
TagOf(text) ==
    LET s == Strip(text, White)
    IN [v |-> StripQuotes(IF Prefixed(s) THEN From(s, 3) ELSE s), weak |-> Prefixed(s)]

\* after position i (the end of a tag) only blanks up to a comma or the end:
\* position behind the separator, 0 if something else follows
RECURSIVE SkipWhite(_, _)
SkipWhite(s, i) == IF i <= Len(s) /\ Ch(s, i) \in White THEN SkipWhite(s, i + 1) ELSE i
AfterTag(s, i) ==
    LET j == SkipWhite(s, i)
    IN IF j <= Len(s) /\ Ch(s, j) = "," THEN SkipWhite(s, j + 1)
       ELSE IF i = Len(s) + 1 THEN i
       ELSE 0
\* elements of a tag list from position i on: [v, weak, q] (q: was quoted)
RECURSIVE ElementsFrom(_, _)
ElementsFrom(s, i) ==
    IF i > Len(s) THEN <<>>
    ELSE LET weak == i + 1 <= Len(s) /\ SubSeq(s, i, i + 1) \in {"w/", "W/"}
             a == IF weak THEN i + 2 ELSE i
             quoted == a <= Len(s) /\ Ch(s, a) = "\""
             ends == IF quoted THEN {j \in (a + 1)..Len(s) : Ch(s, j) = "\"" /\ AfterTag(s, j + 1) # 0} ELSE {}
         IN IF ends # {}
            THEN LET j == MinOf(ends) IN <<[v |-> Mid(s, a + 1, j - 1), weak |-> weak, q |-> TRUE]>> \o ElementsFrom(s, AfterTag(s, j + 1))
            ELSE LET j == MinOf({j \in a..(Len(s) + 1) : AfterTag(s, j) # 0})
                 IN <<[v |-> Mid(s, a, j - 1), weak |-> weak, q |-> FALSE]>> \o ElementsFrom(s, AfterTag(s, j))
NoTags == [strong |-> {}, weak |-> {}, star |-> FALSE]
ParseTags(text) ==
    IF text = None \/ text = "" THEN NoTags
    ELSE LET es == SelectSeq(ElementsFrom(text, 1), LAMBDA x : x.q \/ x.v # "")
         IN IF \E k \in 1..Len(es) : es[k].v = "*" /\ ~es[k].q THEN [NoTags EXCEPT !.star = TRUE]
            ELSE [strong |-> {es[k].v : k \in {k \in 1..Len(es) : ~es[k].weak}},
                  weak |-> {es[k].v : k \in {k \in 1..Len(es) : es[k].weak}}, star |-> FALSE]
IsEmpty(ts) == ts = NoTags
HasStrong(ts, v) == ts.star \/ v \in ts.strong
HasWeak(ts, v) == v \in ts.weak \/ HasStrong(ts, v)
\* a strong tag needs its strong form in the list, a weak one either
Matches(ts, t) == IF t.weak THEN HasWeak(ts, t.v) ELSE HasStrong(ts, t.v)

\* a request's validators: inm text or None; ims [k |-> "none"|"bad"|"ok", s |-> seconds]
\* own: tag text or None; lm: seconds or -1
Unmodified(method, inm, ims, own, lm) ==
    LET ts == ParseTags(inm)
        bydate == ims.k = "ok" /\ lm >= 0 /\ lm <= ims.s
    IN IF own # None /\ own # "" /\ ~IsEmpty(ts) THEN Matches(ts, TagOf(own)) ELSE bydate
=============================================================================
