---------------------------- MODULE ImmutableMC ----------------------------
EXTENDS Immutable
CONSTANT McDepth
Conts == {<<>>, << <<"x", "1">> >>, << <<"x", "1">>, <<"y", "2">>, <<"x", "q">> >>}
McInits == {[kind |-> k, items |-> i] : k \in Multi \union Dicts \union Lists \union Hdrs, i \in Conts}
Names == ListOps \union MultiOps \union HeaderOps \union CacheOps
Evs == [op : {"mutate"}, name : Names, k : {"x", "z"}, v : {"7"}]
    \union [op : {"copy", "copy.copy", "deepcopy", "pickle", "cclear"}]
    \union [op : {"cset", "cadd"}, k : {"x", "z"}, v : {"8"}]
    \union [op : {"cdel"}, k : {"x"}]
McEvents(s) == {e \in Evs : e.op = "mutate" => e.name \in Refused(s.kind)}
McConstraint(s) == Len(s.copy.items) <= 4
McKey(c) == 0
=============================================================================
