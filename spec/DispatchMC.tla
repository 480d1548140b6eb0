----------------------------- MODULE DispatchMC -----------------------------
EXTENDS Dispatch
CONSTANT McDepth, McLen
A(v) == [v |-> v, qs |-> 1000]
AnyRep == [ct |-> A(None), lang |-> A(None), cs |-> A(None), qs |-> 1000]
Html == [AnyRep EXCEPT !.ct = A("text/html")]
McInits == {[n |-> 2]}
Adds == [op : {"add"}, kind : {"view"}, d : {1, 2}, name : {"a"}, methods : {<<"GET">>, <<"GET", "POST">>, <<"HEAD">>}, rep : {AnyRep, Html}, label : {"x"}]
        \union [op : {"add"}, kind : {"binding"}, d : {1}, name : {"b"}, methods : {<<"POST">>}, rep : {AnyRep}, label : {"y"}]
        \union [op : {"add"}, kind : {"classview"}, d : {2}, name : {"a"}, methods : {<<"GET", "PUT">>}, rep : {AnyRep}, label : {"z"}]
Lookups == [op : {"lookup"}, d : {1, 2}, name : {"a", "b"}, method : {"GET", "HEAD", "POST", "PUT"}, accept : {None, "text/plain", "text/html"}, lang : {None}, cs : {None}]
McEvents(s) == Adds \union Lookups \union {[op |-> "nest", d |-> 1, from |-> 2], [op |-> "nest", d |-> 2, from |-> 1]}
McConstraint(s) == \A i \in 1..Len(s) : Len(s[i]) <= McLen
McKey(c) == 0
=============================================================================
