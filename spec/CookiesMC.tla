----------------------------- MODULE CookiesMC -----------------------------
EXTENDS Cookies
CONSTANTS McLen, McValLen
McDepth == 1
RECURSIVE Texts(_, _)
Texts(A, n) == IF n = 0 THEN {""} ELSE LET T == Texts(A, n - 1) IN T \union {a \o t : a \in A, t \in T}
A1 == [domain : {None, "a.b", "x"}, expires : {NoDate, [d |-> 1, s |-> 2]}, age : {-1, 0, 5}, secure : BOOLEAN, httponly : BOOLEAN, path : {None, "/", "/a?;S"}]
McInits == {0}
Vals == TLCEval(Texts({"a", ";", ",", "\"", "\\", " ", "\t", "1", CharTab.e_acute, CharTab.nul, "="}, McValLen))
Evs == [op : {"parse"}, text : Texts({"a", ";", "=", "\"", "\\", " "}, McLen), wire : {"utf-8"}, charset : {"utf-8"}]
    \union [op : {"parse"}, text : {"a=\"" \o t \o "\"" : t \in Texts({"\\", "3", "0", "1", "a"}, 4)}, wire : {"utf-8"}, charset : {"utf-8"}]
    \union [op : {"set"}, k : {"a"}, v : Vals, a : {Plain}, form : {0}]
    \union [op : {"set"}, k : {"a"}, v : {"v"}, a : A1, form : {0, 1}]
McEvents(s) == Evs
McConstraint(s) == TRUE
McKey(c) == 0
=============================================================================
