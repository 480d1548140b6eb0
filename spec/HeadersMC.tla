----------------------------- MODULE HeadersMC -----------------------------
EXTENDS Headers
CONSTANT McDepth, McLen
T(v) == [t |-> "s", v |-> v]
Keys == {"A", "a", "b"}
Vals == {T("1"), T("x"), T("a\nb"), [t |-> "i", v |-> "7"], [t |-> "b", v |-> "y"]}
SVals == {T("1"), T("x\r")}
Ix == {-2, -1, 0, 1, 3}
Items == {<<>>, <<<<"A", T("1")>>>>, <<<<"b", T("x")>>, <<"a", T("2")>>>>, <<<<"a", T("3")>>, <<"b", T("\r")>>, <<"A", T("4")>>>>}
McInits == {[how |-> h, items |-> i] : h \in {"list", "headers", "iter"}, i \in Items}
McEvents(h) ==
    [op : {"add", "set"}, key : Keys, v : Vals, kw : {<<>>}]
    \union [op : {"add_header", "set"}, key : {"a"}, v : {T("x")}, kw : {<<<<"f_n", "a b">>>>, <<<<"n", "a\n">>>>, <<<<"n", None>>, <<"m", "t">>>>}]
    \union [op : {"setitem", "setdefault"}, key : Keys, v : SVals]
    \union [op : {"setidx"}, i : Ix, key : {"A"}, v : SVals]
    \union [op : {"setslice"}, i : {0, 1}, j : {1, 2, -1}, items : Items]
    \union [op : {"delkey", "remove", "pop", "getitem", "getbytes", "contains", "getlistint"}, key : Keys]
    \union [op : {"popdef", "get", "getint"}, key : Keys, d : {"d"}]
    \union [op : {"delidx", "popidx", "getidx"}, i : Ix]
    \union [op : {"delslice", "getslice"}, i : {0, 1, -1}, j : {1, 2, -1}]
    \union [op : {"poplast", "popitem", "clear", "copy"}]
    \union [op : {"extend", "extendh"}, items : Items]
    \union [op : {"eq"}, items : {i \in Items : \A k \in 1..Len(i) : Clean(i[k][2].v)}]
    \union [op : {"extendd"}, items : {<<<<"A", <<T("1"), T("x")>>>>, <<"b", <<T("2")>>>>>>}]
McConstraint(h) == Len(h) <= McLen
McKey(c) == 0
=============================================================================
