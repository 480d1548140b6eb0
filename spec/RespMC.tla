------------------------------- MODULE RespMC -------------------------------
EXTENDS Resp
CONSTANT McDepth
S(v) == [t |-> "s", v |-> v]
B(v) == [t |-> "b", v |-> v]
E1 == CharTab.e_acute
Bodies == {<<>>, <<S("a"), B(E1)>>, <<S(E1), S(""), B("xy")>>}
Hdrs == {<<>>, <<<<"Content-Language", "en">>, <<"Expires", "x">>, <<"X-A", "1">>>>}
McInits ==
    {[kind |-> k, items |-> i, fault |-> f, status |-> 200, cs |-> "utf-8", auto |-> a, implicit |-> im, passthrough |-> FALSE, headers |-> h] :
        k \in {"list", "tuple", "gen", "iterable"}, i \in Bodies, f \in {0}, a \in {TRUE, FALSE}, im \in {TRUE, FALSE}, h \in Hdrs}
    \union {[kind |-> k, items |-> i, fault |-> f, status |-> 200, cs |-> "latin-1", auto |-> TRUE, implicit |-> TRUE, passthrough |-> FALSE, headers |-> <<>>] :
        k \in {"gen", "iterable"}, i \in Bodies \ {<<>>}, f \in {1, 2}}
    \union {[kind |-> "str", items |-> <<S("a" \o E1)>>, fault |-> 0, status |-> 200, cs |-> c, auto |-> TRUE, implicit |-> TRUE, passthrough |-> FALSE, headers |-> <<>>] : c \in {"utf-8", "latin-1"}}
McEvents(s) ==
    IF s.sent THEN {}
    ELSE [op : {"on_close", "make_sequence", "freeze", "get_data", "calc", "is_sequence", "with"}]
         \union [op : {"write"}, v : {S("w" \o E1)}]
         \union (IF IsSeq(s) /\ s.src < 0 THEN [op : {"set_data"}, v : {S(E1), B("z")}] ELSE {})
         \union [op : {"status"}, n : {204, 304}]
         \union [op : {"set_header"}, key : {"Content-Length"}, v : {"777"}]
         \union [op : {"send"}, method : {"GET", "HEAD"}, take : {-1, 0, 1, 2}, via : {"direct"}]
         \union [op : {"send"}, method : {"GET", "HEAD"}, take : {-1, 1, 2}, via : {"app"}]
McConstraint(s) == Len(s.cbs) <= 1 /\ Len(s.items) <= 4
McKey(c) == 0
=============================================================================
