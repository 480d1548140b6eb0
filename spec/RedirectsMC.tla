---------------------------- MODULE RedirectsMC ----------------------------
EXTENDS Redirects
CONSTANTS McLoc, McPath
McDepth == 2
RECURSIVE Texts(_, _)
Texts(A, n) == IF n = 0 THEN {""} ELSE LET T == Texts(A, n - 1) IN T \union {a \o t : a \in A, t \in T}
Env(h, s, p, q) == [xfh |-> <<>>, host |-> <<h>>, name |-> "n", port |-> "80", scheme |-> "http", script |-> s, path |-> p, query |-> q, cs |-> "utf-8"]
Heads == {"", "/", "//", "?", "#", "http://h", "https://O/", "x:", "mailto:a@b", "//" \o CharTab.e_acute \o ".com", "http://u@h:81/", "\\", ":"}
Locs == TLCEval({h \o t : h \in Heads, t \in Texts({"a", "/", "..", "/../", "./", "?", "#", "%41", "%", "<\"'&>", " ", CharTab.e_acute, ":", "\n"}, McLoc)})
\* no empty segments where dots are resolved
Fine(l) == LET u == Apart(l) p == IF u = Bad THEN "" ELSE u.path IN
    /\ u # Bad => KnownHost(l)
    /\ u # Bad /\ u.scheme \in {"http", "https"} => u.host # ""
    /\ ~(Contains(p, "//") /\ (~StartsWith(p, "/") \/ Contains(p, "..") \/ Contains(p, "/.")))
McLocs == TLCEval({l \in Locs : Fine(l)})
Paths == TLCEval({p \in {"/" \o t : t \in Texts({"a", "http:", "//e.com", "?", "#", "%2F", CharTab.e_acute, "\\", ";"}, McPath)} \union {""} : p = "" \/ Ch(p, Len(p)) # "/"})
McInits == {[envs |-> <<Env("h", "", p, q), Env("ex.com:8080", "/s t", p, q)>>, auto |-> TRUE] : p \in Paths, q \in {"", "a=%2F&b=?#"}}
    \union {[envs |-> <<Env("h", "", "/", "")>>, auto |-> FALSE]}
Base(c) == c.envs[1].path = "" /\ c.envs[1].query = ""
Lone(c) == Len(c.envs) = 1
McEvents(st) ==
    IF st.loc # None THEN [op : {"send"}, i : 1..Len(st.c.envs), via : {"call"}]
    ELSE IF Base(st.c) \/ Lone(st.c)
    THEN [op : {"set"}, loc : McLocs, via : {"prop"}] \union [op : {"redirect"}, loc : McLocs, code : {302}]
    ELSE [op : {"slash"}, i : 1..Len(st.c.envs), code : {301}]
McConstraint(st) == TRUE
McKey(c) == 0
=============================================================================
