------------------------------- MODULE AuthMC -------------------------------
EXTENDS Auth
CONSTANTS McUser, McVal
McDepth == 1
RECURSIVE Texts(_, _)
Texts(A, n) == IF n = 0 THEN {""} ELSE LET T == Texts(A, n - 1) IN T \union {a \o t : a \in A, t \in T}
Users == TLCEval(Texts({"a", ":", CharTab.e_acute, CharTab.ydiaer, " ", "~"}, McUser))
Vals == TLCEval(Texts({"a", ",", "=", "\"", "\\", " ", CharTab.e_acute, ";"}, McVal))
McInits == TLCEval({[k |-> "user", x |-> u] : u \in Users} \union {[k |-> "val", x |-> v] : v \in Vals})
Full(v, how) == << <<"username", v, how>>, <<"realm", "r", "quoted">>, <<"nonce", "n", "plain">>, <<"uri", "/?a=b,c", "quoted">>, <<"response", "0f", "quoted">> >>
McEvents(s) ==
    IF s.k = "user" THEN [op : {"basic"}, user : {s.x}, pass : Users, cs : {"utf-8", "latin-1"}]
    ELSE [op : {"digest"}, params : {Full(s.x, "quoted"), Full(s.x, "escaped"), Tail(Full(s.x, "quoted")),
                                     Full(s.x, "quoted") \o << <<"qop", "auth", "plain">>, <<"nc", "1", "plain">>, <<"cnonce", s.x, "quoted">> >>,
                                     Full("u", "plain") \o << <<"qop", s.x, "quoted">>, <<"nc", "1", "plain">> >>}, scheme : {"Digest", "dIGEST"}, sep : {", ", ","}]
        \union [op : {"set_basic"}, realm : {s.x}]
        \union [op : {"challenge"}, type : {"digest", "x-foo"}, d : {<< <<"x", s.x>>, <<"realm", s.x>> >>}]
        \union [op : {"set_digest"}, realm : {s.x}, nonce : {"n"}, q : {<<"auth">>, <<s.x, "auth-int">>}, stale : BOOLEAN, opaque : {None, s.x}, algorithm : {None, "MD5-sess"}]
McConstraint(s) == TRUE
McKey(c) == 0
=============================================================================
