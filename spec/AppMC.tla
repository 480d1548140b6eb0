------------------------------- MODULE AppMC -------------------------------
(* Builders with every short combination of layers, routes and views, and   *)
(* applications built before and after each of them is added.               *)
EXTENDS App
CONSTANT McDepth
PlainR == E!PlainRep
Cls == <<[name |-> "C1", bases |-> <<"Exception">>], [name |-> "C2", bases |-> <<"C1", "KeyError">>]>>
NoRoot == [scheme |-> "", host |-> "", path |-> ""]
Root == [scheme |-> "http", host |-> "h.example", path |-> "/app"]
Tagged(l) == [op |-> "mid", label |-> l, does |-> "tag", how |-> "args"]
Expose(name, methods, does) ==
    [op |-> "expose", via |-> "builder", name |-> name, fn |-> "page", route |-> None, methods |-> methods, rep |-> PlainR,
     label |-> "V" \o does, does |-> does]
Req(i, m, p) == [op |-> "request", app |-> i, method |-> m, path |-> p, q |-> "k=v", script |-> "", host |-> "req.example",
                 accept |-> None, lang |-> None, cs |-> None, take |-> FALSE]
Route(d) == [op |-> "route", def |-> d]
Blk == [op |-> "mid", label |-> "B", does |-> "block", how |-> "kwargs"]
Cut == [op |-> "mid", label |-> "S", does |-> "strip", how |-> "args"]
H(k) == [op |-> "handler", h |-> [cls |-> k, rep |-> PlainR, label |-> "H" \o k, then |-> "answer"]]
Build(r) == [op |-> "build", root |-> r]
Conv(k) == [op |-> "conv", name |-> "num", kind |-> k]
Views == <<Expose(None, <<"GET">>, "answer"), Expose("page", <<"POST", "PUT">>, "C2"), Expose("other", <<"GET">>, "json")>>
Routes == <<Route(Plain("/a", "page")), Route(Plain("/b/<num:x>/", "page")), Route([Plain("/c/<x>", "other") EXCEPT !.redir = "b/<x>"]),
            Route(Plain("/d/", "other")), Route(Plain("/e/<path:x>/", "nobody"))>>
Layers == {<<>>, <<Tagged("T1"), Tagged("T1")>>, <<Tagged("T1"), Tagged("T2"), Tagged("T1")>>, <<Tagged("T1")>>, <<Tagged("T1"), Tagged("T2")>>, <<Tagged("T2"), Tagged("T1")>>, <<Blk, Tagged("T1")>>,
           <<Tagged("T1"), Blk>>, <<Cut, Tagged("T1")>>, <<Tagged("T1"), Blk, Tagged("T2"), Cut>>}
HandlerLists == {<<>>, <<H("KeyError")>>, <<H("HTTPException")>>, <<H("Exception"), H("C1")>>}
McInits ==
    {[classes |-> Cls, redirects |-> rd, mixins |-> mx, pre |-> Routes \o cv \o Views \o l \o h \o <<Build(r)>>] :
        rd \in {TRUE, FALSE}, mx \in {TRUE},
        cv \in (IF McDepth > 1 THEN {<<Conv("int")>>} ELSE {<<Conv("int")>>, <<Conv("int"), Conv("string")>>, <<Conv("string"), Conv("int")>>}), l \in (IF McDepth > 1 THEN {<<>>, <<Tagged("T1"), Blk>>} ELSE Layers),
        h \in (IF McDepth > 1 THEN {<<H("HTTPException")>>} ELSE HandlerLists), r \in {NoRoot, Root}}
McEvents(s) ==
    (IF McDepth = 1 THEN {} ELSE
       {Route(Plain("/new", "page")), Expose("page", <<"GET">>, "nothing"), Tagged("T3"), H("KeyError"), H("NotFound"), Conv("string"),
        Route(Plain("/<nope:x>", "page")), Build(NoRoot), [op |-> "rmix", name |-> "M1"], [op |-> "rmix", name |-> "M2"],
        [op |-> "amix", name |-> "M2"], [op |-> "amix", name |-> "M3"], [op |-> "conf", key |-> "k", v |-> "1"]})
    \union {Req(i, m, p) : i \in 1..Len(s.apps), m \in {"GET", "HEAD", "DELETE", "POST"},
                           p \in {"/a", "/b/1", "/b/1/", "/b/x/", "/c/2", "/old/a", "/d", "/e/http:evil.example", "/e/a", "/new"}}
    \union {[op |-> "visit", app |-> i, ep |-> ep, vals |-> v, method |-> m, host |-> "req.example", take |-> FALSE] :
               i \in 1..Len(s.apps), m \in {"GET", "HEAD"}, ep \in {"page", "other", "nobody"}, v \in {<<>>, <<<<"x", [t |-> "i", v |-> "1"]>>>>}}
    \union {[op |-> "attr", app |-> i, name |-> n] : i \in 1..Len(s.apps), n \in {"a", "b"}}
    \union {[op |-> "setconf", app |-> i, key |-> "k"] : i \in 1..Len(s.apps)}
    \union {[op |-> "debug", app |-> 1, on |-> TRUE]}
McConstraint(s) == TRUE
McKey(c) == 0
=============================================================================
