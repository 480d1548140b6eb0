----------------------------- MODULE RoutingMC -----------------------------
(* Every ordered pair of routes from a pool of overlapping patterns (and    *)
(* every triple from a smaller pool), every path and every build of a pool. *)
EXTENDS Routing
CONSTANT McOps, McSize
McDepth == 1
Def(r, ep) == [r |-> r, ep |-> ep, defs |-> <<>>, sub |-> None, host |-> "", strict |-> "-",
               bo |-> FALSE, alias |-> FALSE, redir |-> None, wrap |-> <<>>]
I(n) == [t |-> "i", v |-> n]
S(x) == [t |-> "s", v |-> x]
Pool == <<
    Def("/", "r"), Def("/a", "s"), Def("/a/", "s"), Def("/<x>", "e"), Def("/<x>/", "e"),
    Def("/<int:x>", "e"), Def("/<path:x>", "e"), Def("/a/<x>", "f"), Def("/a/<path:x>/", "f"),
    Def("/<x>/<int:y>", "g"), Def("/<path:x>/a", "g"), Def("/<any(a,b):x>/<y>", "g"),
    Def("/<string(length=2):x>", "e"), Def("/<float:x>", "e"), Def("/a<x>", "e"),
    [Def("/a", "e") EXCEPT !.defs = <<<<"x", S("a")>>>>],
    [Def("/b/", "e") EXCEPT !.defs = <<<<"x", I("1")>>>>],
    [Def("/a/<x>", "g") EXCEPT !.defs = <<<<"y", I("1")>>>>],
    [Def("/b/<x>", "e") EXCEPT !.alias = TRUE],
    [Def("/a/", "s") EXCEPT !.strict = "F"],
    [Def("/<x>", "e") EXCEPT !.bo = TRUE],
    [Def("/b/<x>", "f") EXCEPT !.redir = "a/<x>"],
    [Def("/<path:x>", "f") EXCEPT !.redir = "<x>"] >>
Small == {4, 5, 6, 7, 8, 9, 16, 17, 19}
N == Len(Pool)
Tables ==
    {<<i>> : i \in 1..N} \union {<<i, j>> : i \in 1..N, j \in 1..N}
    \union (IF McSize >= 3 THEN {<<i, j, k>> : i \in Small, j \in Small, k \in Small} ELSE {})
Distinct(t) == \A i, j \in 1..Len(t) : i # j => t[i] # t[j]
Cfgs == {[strict |-> s, rdef |-> d, hostm |-> FALSE, dsub |-> "", cs |-> "utf-8"] : s \in {TRUE}, d \in {TRUE, FALSE}}
McInits == {[cfg |-> c, bind |-> [server |-> "h.com", sub |-> "", script |-> "/s", scheme |-> "http"],
             routes |-> [i \in 1..Len(t) |-> Pool[t[i]]]] : c \in Cfgs, t \in {t \in Tables : Distinct(t)}}
Q(s) == [t |-> "s", s |-> s, pairs |-> <<>>]
Paths == {"/", "/a", "/a/", "/b", "/b/", "/1", "/1/", "/ab", "/1.5", "/a/1", "/a/a", "/a/b/", "/b/a",
          "/b/1", "/1/1", "/a/a/a", "/a//a", "//b", "/http://x", "/b/http://x"}
McEvents(st) ==
    IF McOps = "match" THEN {[op |-> "match", path |-> p, q |-> Q(""), pre |-> FALSE] : p \in Paths} \union {[op |-> "iter"]}
    ELSE IF McOps = "follow" THEN {[op |-> "follow", path |-> p, q |-> Q("k=v")] : p \in Paths}
    ELSE LET vs == {<<>>, <<<<"x", S("a")>>>>, <<<<"x", I("1")>>>>, <<<<"x", S("a/b")>>>>, <<<<"x", S("a//b")>>>>, <<<<"x", S("..")>>>>,
                    <<<<"x", S("a")>>, <<"y", I("1")>>>>, <<<<"x", S("b")>>, <<"y", I("2")>>>>,
                    <<<<"x", [t |-> "f", v |-> "1.0"]>>>>}
         IN {[op |-> "build", ep |-> p, vals |-> v, extra |-> <<>>, ext |-> FALSE, unknown |-> TRUE, multi |-> FALSE]
             : p \in {"e", "f", "g", "s"}, v \in vs}
            \union {[op |-> "roundtrip", ep |-> p, vals |-> v] : p \in {"e", "g"}, v \in vs}
McConstraint(st) == TRUE
McKey(c) == 0
=============================================================================
