--------------------------- MODULE ErrDispatchMC ---------------------------
EXTENDS ErrDispatch
CONSTANT McSize
A(v) == [v |-> v, qs |-> 1000]
Html == [PlainRep EXCEPT !.ct = A("text/html")]
Json == [PlainRep EXCEPT !.ct = A("application/json")]
McDepth == 1
Cls == <<[name |-> "C1", bases |-> <<"Exception">>], [name |-> "C2", bases |-> <<"C1">>],
         [name |-> "C3", bases |-> <<"C1", "KeyError">>], [name |-> "C4", bases |-> <<"C2", "C3">>]>>
H(cls, rep, l) == [cls |-> cls, rep |-> rep, label |-> l, then |-> "answer"]
Hs == {H(k, r, "A") : k \in {"C1", "C3", "Exception", "HTTPException"}, r \in {PlainRep, Html}}
Hs2 == {[h EXCEPT !.label = "B", !.rep = IF @ = Html THEN Json ELSE PlainRep] : h \in Hs}
Hs3 == {H("BaseException", PlainRep, "E"), H("LookupError", Html, "E"), H("NotFound", Html, "E"), H("NotAcceptable", Html, "E"), H("MethodNotAllowed", Json, "E"), [H("C2", Html, "E") EXCEPT !.then = "KeyError"]}
Lists == IF McSize = 1 THEN {<<a, b>> : a \in Hs, b \in Hs2} \union {<<a>> : a \in Hs3} \union {<<a, b>> : a \in Hs3, b \in Hs2}
         ELSE {<<a, b, d>> : a \in Hs, b \in Hs2, d \in Hs3}
V(n, m, l, d) == [name |-> n, method |-> m, rep |-> PlainRep, label |-> l, does |-> d]
McInits == {[classes |-> Cls, handlers |-> h, redirects |-> r,
             views |-> <<V("n1", "GET", "v", "C4"), V("n1", "POST", "w", "answer"), V("n2", "GET", "x", "KeyError"), [V("n3", "GET", "y", "json") EXCEPT !.rep = Json]>>] :
            h \in Lists, r \in {TRUE, FALSE}}
McEvents(c) == [op : {"request"}, path : {"n1", "n2", "n3", "branch", "zzz"}, method : {"GET", "POST"}, accept : {None, "text/html", "image/png", "application/json;q=0.5, text/html;q=0"}, lang : {None}, cs : {None}]
McConstraint(c) == TRUE
McKey(c) == 0
=============================================================================
