------------------------------ MODULE ClientMC ------------------------------
EXTENDS Client
CONSTANTS McDepth, McLocs, McSets
Rule(h, p, st, loc, sets) == [host |-> h, path |-> p, kind |-> "iter", status |-> st, loc |-> loc, sets |-> sets, write |-> <<>>, chunks |-> <<p>>, late |-> <<>>]
Ck(n, v, dom, path, sec, age) == [n |-> n, v |-> v, dom |-> dom, path |-> path, secure |-> sec, age |-> age]
AllSets == <<<<>>, <<Ck("c", "1", None, "/", FALSE, "-")>>, <<Ck("c", "2", None, "/b", FALSE, "-")>>, <<Ck("c", "3", "h.com", "/", FALSE, "-")>>,
             <<Ck("c", "x", None, "/", FALSE, "gone")>>, <<Ck("c", "4", None, "/", TRUE, "-")>>, <<Ck("c", "5", "evil.org", "/", FALSE, "-")>>>>
AllLocs == <<"/b", "/a", "http://a.h.com/b", "b", "https://h.com/b", "http://evil.org/b", "?q=1", "/s/b", "http://h.com/a?x=1">>
Locs == {AllLocs[i] : i \in 1..McLocs}
Sets == {AllSets[i] : i \in 1..McSets}
Ends == {"302 Found", "307 Temporary Redirect"}
A == {Rule("*", "/a", "200 OK", None, s) : s \in Sets} \union {Rule("*", "/a", st, l, s) : st \in Ends, l \in Locs, s \in Sets}
B == {Rule("*", "/b", "200 OK", None, s) : s \in Sets} \union {Rule("*", "/b", "303 See", l, <<>>) : l \in Locs}
McInits == [rules : {<<a, b>> : a \in A, b \in B}, cookies : {TRUE}, sub : BOOLEAN]
D(base, path, m) == [path |-> path, base |-> base, query |-> [t |-> "none", s |-> "", pairs |-> <<>>], method |-> m, hdrs |-> <<>>,
                     data |-> [t |-> "none", s |-> "", fields |-> <<>>], ctype |-> None, cs |-> "utf-8", below |-> <<>>, above |-> <<>>]
McEvents(s) == {[op |-> "open", d |-> d, follow |-> TRUE] : d \in {D("http://h.com/", "/a", "POST"), D("http://a.h.com/", "/b", "GET"), D("http://h.com/s", "/a", "HEAD")}}
McConstraint(s) == TRUE
McKey(c) == 0
=============================================================================
