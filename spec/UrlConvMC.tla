----------------------------- MODULE UrlConvMC -----------------------------
EXTENDS UrlConv
CONSTANTS McPart, McUser
McDepth == 1
RECURSIVE Texts(_, _)
Texts(A, n) == IF n = 0 THEN {""} ELSE LET T == Texts(A, n - 1) IN T \union {a \o t : a \in A, t \in T}
\* pieces of a part: raw characters, escapes of delimiters and of octets
Raw == {"a", "/", ";", "=", " ", ":", CharTab.e_acute}
Escs == {"%2F", "%3f", "%23", "%41", "%C3%A9", "%C3", "%25", "%", "%0A", "%40", "%3A", "%20"}
Parts == TLCEval(Texts(Raw \union Escs, McPart))
Users == TLCEval(Texts({"u", "@", "%40", "%23", "%C3%A9", "%2F", ":"}, McUser))
AllUrls == {"http://h/" \o p : p \in Parts} \union {"http://h/?" \o p : p \in Parts} \union {"http://h/#" \o p : p \in Parts}
    \union Parts \union {"/" \o p : p \in Parts} \union {"//" \o p : p \in Parts} \union {"x:" \o p : p \in Parts}
    \union {"http://" \o p \o "@h:80/" : p \in Users} \union {"http:/" \o p : p \in Parts}
McInits == TLCEval({u \in AllUrls : KnownHost(u)})
McEvents(s) == [op : {"to_uri", "to_iri", "uri_iri_uri", "iri_uri_iri"}, text : {s}] \union [op : {"fix"}, text : {s}, charset : {"utf-8"}]
McConstraint(s) == TRUE
McKey(c) == 0
=============================================================================
