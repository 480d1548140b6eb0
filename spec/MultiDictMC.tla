---------------------------- MODULE MultiDictMC ----------------------------
EXTENDS MultiDict
CONSTANTS McDepth, McMax
Src(how, pairs) == [how |-> how, pairs |-> pairs]
McInits == [a : {"plain", "ordered"}, b : {"plain", "ordered"},
            asrc : {Src("pairs", << <<"x", "1">>, <<"y", "2">>, <<"x", "q">> >>)}, bsrc : {Src("none", <<>>)}]
K == {"x", "y"}
Srcs == {Src("pairs", << <<"y", "3">>, <<"x", "1">> >>), Src("a", <<>>), Src("b", <<>>), Src("c", <<>>)}
Evs == [op : {"getitem", "delitem", "pop", "poplist"}, o : {"a", "b"}, k : K]
    \union [op : {"getitem"}, o : {"c"}, k : K]
    \union [op : {"get"}, o : {"a", "c"}, k : K, d : {"dflt"}, t : {"none", "int"}]
    \union [op : {"getlist"}, o : {"a", "c"}, k : K, t : {"int"}]
    \union [op : {"setitem", "add", "setdefault"}, o : {"a", "b"}, k : K, v : {"1"}]
    \union [op : {"setlist"}, o : {"a"}, k : K, vs : {<<>>, <<"2", "1">>}]
    \union [op : {"setlistdefault"}, o : {"a"}, k : {"y"}, vs : {<<"5">>}, ext : {<<"6">>}]
    \union [op : {"update"}, o : {"a"}, src : Srcs]
    \union [op : {"ior", "or"}, o : {"a", "b"}, src : {Src("pairs", << <<"y", "3">>, <<"x", "1">> >>)}]
    \union [op : {"popdef"}, o : {"b"}, k : K, d : {"dflt"}]
    \union [op : {"popitem", "popitemlist", "clear"}, o : {"a"}]
    \union [op : {"copy"}, o : {"a"}, to : {"b"}, how : {"copy", "deepcopy", "pickle"}]
    \union [op : {"copy"}, o : {"c"}, to : {"c"}, how : {"copy", "deepcopy", "pickle"}]
    \union [op : {"setstate"}, o : {"a"}, to : {"b"}]
    \union [op : {"eq"}, o : {"a", "c"}, to : {"b", "c"}]
    \union [op : {"eqother"}, o : {"a", "c"}]
McEvents(s) == {e \in Evs : e.op = "setstate" => s.a.kind = s.b.kind}
McConstraint(s) == Len(s.a.items) <= McMax /\ Len(s.b.items) <= McMax - 1
McKey(c) == <<c.a, c.b>>
=============================================================================
