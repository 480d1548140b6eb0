------------------------------ MODULE HostsMC ------------------------------
EXTENDS Hosts
CONSTANTS McLen
McDepth == 1
RECURSIVE Texts(_, _)
Texts(A, n) == IF n = 0 THEN {""} ELSE LET T == Texts(A, n - 1) IN T \union {a \o t : a \in A, t \in T}
Env(h) == [xfh |-> <<>>, host |-> <<h>>, name |-> "n", port |-> "80", scheme |-> "http", script |-> "", path |-> "/", query |-> "", cs |-> "utf-8"]
Pieces == {"a.b", "b", "a", ".", ":", "8", "@", "/", "[::1]", CharTab.e_acute, "]"}
RefLists == {<<"a.b">>, <<".a.b">>, <<"[::1]", "b:8">>, <<"b:9", "." \o CharTab.e_acute>>, <<"xn--9ca.b">>}
McInits == {[env |-> Env(""), limited |-> TRUE, refs |-> q, pre |-> p] : q \in RefLists, p \in Pieces \union {""}}
Hosts0 == TLCEval(Texts(Pieces, McLen))
McEvents(s) == [op : {"trusted"}, host : {t \in {s.pre \o h : h \in Hosts0} : \A i \in 1..Len(Split(NameOf(t), ".")) : LET l == Split(NameOf(t), ".")[i] IN Ascii(l) \/ l \in DOMAIN CharTab.idna_a \/ AnyIn(l, NotInHost)}]
McConstraint(s) == TRUE
McKey(c) == 0
=============================================================================
