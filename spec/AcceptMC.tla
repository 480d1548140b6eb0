------------------------------ MODULE AcceptMC ------------------------------
EXTENDS Accept
CONSTANT McSize
A(v) == [v |-> v, qs |-> 1000]
NoV == A(None)
P(c, l, s, q) == [ct |-> c, lang |-> l, cs |-> s, qs |-> q]
Reps == {P(A("text/html"), NoV, NoV, 1000), P(A("text/plain"), NoV, NoV, 500), P([v |-> "text/html", qs |-> 500], NoV, NoV, 1000),
         P(A("image/png"), NoV, NoV, 1000), P(NoV, NoV, NoV, 1000),
         P(NoV, A("en"), NoV, 1000), P(NoV, A("en-gb"), NoV, 1000), P(A("text/html"), A("fr"), NoV, 1000),
         P(A("text/html"), A("en-gb"), A("utf-8"), 1000), P(NoV, NoV, A("ascii"), 1000), P(A("text/html"), NoV, A("utf-8"), 250)}
Lists == IF McSize = 1 THEN {<<a, b>> : a, b \in Reps} ELSE {<<a, b, c>> : a, b, c \in Reps}
McInits == {[reprs |-> q] : q \in Lists}
McDepth == 1
Acs == {None, "*/*", "text/html", "text/*;q=0.5, */*;q=0.8", "text/html;q=0, */*", "text/html;q=0.5,text/plain", "image/*, text/plain; q=0.2", "bad"}
Als == {None, "en", "en-gb;q=0.5, en", "en;q=0, *;q=0.5", "fr;q=0.1, en-gb;q=0.7"}
Css == {None, "utf-8;q=0.3, *;q=0.1", "*, utf-8;q=0"}
McEvents(rs) == [op : {"select"}, order : {"fwd"}, accept : Acs, lang : Als, cs : Css]
McConstraint(rs) == TRUE
McKey(c) == 0
=============================================================================
