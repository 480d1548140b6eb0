------------------------------ MODULE Cookies ------------------------------
(***************************************************************************)
(* Cookies: the state is what a client stores and echoes, a sequence of    *)
(* [name, raw] in the order they were first set.                           *)
(***************************************************************************)
EXTENDS CookieText

\* what a client stores: name and value up to the first semicolon
NoJar == <<>>
JarPut(j, header) ==
    LET p == UpTo(header, SkipNot(header, 1, {";"}) - 1)
        e == Find(p, "=")
    IN DictPut(j, UpTo(p, e - 1), From(p, e + 1))
Echo(j) == Join([i \in 1..Len(j) |-> j[i][1] \o "=" \o j[i][2]], "; ")

InitState(c) == [jar |-> NoJar, want |-> <<>>]
InitRet(c) == Done
Plain == [domain |-> None, expires |-> NoDate, age |-> -1, secure |-> FALSE, httponly |-> FALSE, path |-> "/"]
Step(st, e) ==
    CASE e.op = "set" ->
            IF BadDomain(e.a.domain) THEN R(st, Exc("ValueError"))
            ELSE LET h == SetCookie(e.k, e.v, e.a, "utf-8")
                 IN R([jar |-> JarPut(st.jar, h), want |-> DictPut(st.want, e.k, e.v)], Val(h))
      [] e.op = "delete" ->
            LET a == [Plain EXCEPT !.expires = [d |-> 0, s |-> 0], !.age = 0, !.path = e.path, !.domain = e.domain]
            IN R([jar |-> SelectSeq(st.jar, LAMBDA x : x[1] # e.k), want |-> SelectSeq(st.want, LAMBDA x : x[1] # e.k)],
                 Val(SetCookie(e.k, "", a, "utf-8")))
      [] e.op = "dump" -> R(st, Val(<<SetCookie(e.k, e.v, Plain, e.charset), e.v>>))
      [] e.op = "parse" -> R(st, Val([SET |-> Range(ParseCookie(e.text, e.wire, e.charset))]))
Obs(st) == [cookies |-> [SET |-> Range(ParseCookie(Echo(st.jar), "utf-8", "utf-8"))]]

\* C16
StateInv(st) == ParseCookie(Echo(st.jar), "utf-8", "utf-8") = st.want
\* the attributes of the header are those asked for and nothing else
Attrs(h) == LET p == Split(h, "; ") IN Tail(p)
StepInv(st, e, r) ==
    /\ e.op = "set" /\ r.ret.k = "val" =>
        LET p == Attrs(r.ret.v) a == e.a IN
        /\ Len(p) = (IF a.domain = None THEN 0 ELSE 1) + (IF a.expires = NoDate /\ a.age < 0 THEN 0 ELSE 1) + (IF a.age < 0 THEN 0 ELSE 1)
                    + (IF a.secure THEN 1 ELSE 0) + (IF a.httponly THEN 1 ELSE 0) + (IF a.path = None THEN 0 ELSE 1)
        /\ Count(r.ret.v, ";") = Len(p)
    /\ e.op = "dump" => ParseCookie(SetCookie(e.k, e.v, [Plain EXCEPT !.path = None], e.charset), "utf-8", e.charset) = << <<e.k, e.v>> >>
=============================================================================
