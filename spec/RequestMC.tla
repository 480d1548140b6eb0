----------------------------- MODULE RequestMC -----------------------------
EXTENDS Request
CONSTANTS McDepth
Base == [method |-> "POST", path |-> "/a", script |-> "", query |-> "a=b", cs |-> "utf-8", hdrs |-> <<>>, ctype |-> None, clen |-> None, remote |-> "1.1.1.1",
         user |-> None, scheme |-> "http", flags |-> <<"true", "false", None>>, body |-> "abc", bcs |-> "utf-8", terminated |-> FALSE, shallow |-> FALSE, populate |-> TRUE, err |-> "replace", own |-> FALSE]
\* reading: every way of announcing the length of every body
Bodies == {"", "ab", "a" \o CharTab.e_acute}
Fits(c) == Avail(c) <= Len(Body(c))
Readers == TLCEval({c \in {[Base EXCEPT !.body = b, !.clen = l, !.terminated = t, !.shallow = s, !.populate = p] :
                    b \in Bodies, l \in {None, "0", "1", "2", "3", "-1", "x"}, t \in BOOLEAN, s \in BOOLEAN, p \in BOOLEAN} : Fits(c)})
\* query strings and paths of a few delicate characters
RECURSIVE Texts(_, _)
Texts(A, n) == IF n = 0 THEN {""} ELSE LET T == Texts(A, n - 1) IN T \union {a \o t : a \in A, t \in T}
Queries == TLCEval({[Base EXCEPT !.query = q, !.err = x] : q \in Texts({"a", "=", "&", "+", "%", "%C3", "%A9", ";"}, 4), x \in {"replace", "ignore"}})
Paths == TLCEval({[Base EXCEPT !.path = p, !.script = p, !.cs = s, !.err = x] : p \in Texts({"a", "/", CharTab.e_acute, "?"}, 3), s \in {"utf-8", "latin-1"}, x \in {"replace", "ignore"}})
Lists1 == TLCEval({[Base EXCEPT !.hdrs = << <<k, v>> >>] : k \in {"X_FORWARDED_FOR", "PRAGMA", "CACHE_CONTROL", "IF_MATCH", "COOKIE", "MAX_FORWARDS"}, v \in Texts({"a", ",", "=", "\"", " ", ";"}, 3)})
Ranges1 == TLCEval({[Base EXCEPT !.hdrs = << <<"RANGE", "bytes" \o v>> >>] : v \in Texts({"=", "1", "-", ",", " "}, 4)})
Types == TLCEval({[Base EXCEPT !.ctype = v] : v \in Texts({"a", "B", "/", ";", "=", "\"", " "}, 3)})
Strict == TLCEval({[Base EXCEPT !.query = q, !.path = q, !.cs = s, !.err = "strict"] : q \in Texts({"a", "=", "%C3", "%A9", CharTab.e_acute}, 3), s \in {"utf-8", "latin-1"}})
McInits == TLCEval(Readers \union Queries \union Paths \union Lists1 \union Ranges1 \union Types \union Strict)
McEvents(s) ==
    IF s.c.err = "strict" THEN [op : {"one"}, name : {"path", "args"}]
    ELSE IF s.c \notin Readers THEN {[op |-> "views"]}
    ELSE [op : {"data"}, cache : BOOLEAN, text : BOOLEAN] \union [op : {"read"}, n : {-1, 0, 1, 2}] \union {[op |-> "parse"]}
McConstraint(s) == TRUE
McKey(c) == 0
=============================================================================
