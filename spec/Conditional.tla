---------------------------- MODULE Conditional ----------------------------
(***************************************************************************)
(* A response with validators and conditional requests for it.  The hash   *)
(* that makes a tag from a body b is left open: it is written "#b#".       *)
(***************************************************************************)
EXTENDS ETags

Hash(b) == "#" \o b \o "#"
InitState(c) == [status |-> c.status, body |-> c.body, etag |-> None, lm |-> -1]
InitRet(c) == Done

SetTag(s, v, weak) == IF Contains(v, "\"") THEN R(s, Exc("ValueError")) ELSE R([s EXCEPT !.etag = QuoteTag(v, weak)], Done)
NoBody(status, method) == method = "HEAD" \/ status \in {204, 304}

Tags(ts) == [strong |-> [SET |-> ts.strong], weak |-> [SET |-> ts.weak], star |-> ts.star]
Step(s, e) ==
    CASE e.op = "set_etag" -> SetTag(s, e.v, e.weak)
      [] e.op = "add_etag" -> IF s.etag = None \/ e.overwrite THEN SetTag(s, Hash(s.body), e.weak) ELSE R(s, Done)
      [] e.op = "freeze" -> R(IF s.etag = None /\ e.tag THEN [s EXCEPT !.etag = QuoteTag(Hash(s.body), FALSE)] ELSE s, Done)
      [] e.op = "get_etag" -> R(s, IF s.etag = None THEN Val(<<None, None>>) ELSE Val(<<TagOf(s.etag).v, TagOf(s.etag).weak>>))
      [] e.op = "set_data" -> R([s EXCEPT !.body = e.v], Done)
      [] e.op = "last_modified" -> R([s EXCEPT !.lm = e.s], Done)
      [] e.op = "conditional" ->
            LET t == IF e.method \in {"GET", "HEAD"} /\ Unmodified(e.method, e.inm, e.ims, s.etag, s.lm)
                     THEN [s EXCEPT !.status = 304] ELSE s
                \* announced on the response itself, before it is sent
                known == e.method \in {"GET", "HEAD"}
            IN R(t, Val([status |-> t.status, known |-> IF known THEN NatText(Len(s.body)) ELSE None, body |-> IF NoBody(t.status, e.method) THEN "" ELSE t.body, etag |-> t.etag,
                         \* unless the answer is not-modified the length of the entity is announced
                         length |-> IF t.status \in {204, 304} THEN None ELSE NatText(Len(t.body))]))
      [] e.op = "check" ->
            \* as a question; for other methods than GET and HEAD it is never "modified"
            LET own == IF e.hashed THEN Hash(e.own) ELSE e.own
            IN R(s, Val(IF e.method \notin {"GET", "HEAD"} THEN FALSE ELSE ~Unmodified(e.method, e.inm, e.ims, own, e.lm)))
      [] e.op = "parse" ->
            LET ts == ParseTags(e.text) t == TagOf(e.probe)
            IN R(s, Val([tags |-> Tags(ts), raw |-> Matches(ts, t), strong |-> HasStrong(ts, t.v), any |-> HasWeak(ts, t.v), bool |-> ~IsEmpty(ts)]))
      [] e.op = "quote" ->
            R(s, IF Contains(e.v, "\"") THEN Exc("ValueError") ELSE Val(<<QuoteTag(e.v, e.weak), e.v, e.weak>>))
Obs(s) == [status |-> s.status, etag |-> s.etag]
StateInv(s) == TRUE

StepInv(s, e, r) ==
    /\ e.op = "quote" /\ r.ret.k = "val" => TagOf(r.ret.v[1]) = [v |-> e.v, weak |-> e.weak]
    \* C09: a tag that was set is found again in a list that names it, and only there
    /\ e.op = "set_etag" /\ r.ret.k = "val" =>
          LET t == [v |-> e.v, weak |-> e.weak] IN
          /\ TagOf(r.st.etag) = t
          /\ Matches(ParseTags(r.st.etag), t)
          /\ Matches(ParseTags("\"other\", " \o r.st.etag \o ",w/\"x\""), t)
          /\ e.v # "other" => ~Matches(ParseTags("\"other\""), t)
    \* not modified is only answered to safe requests that carry a validator
    /\ e.op = "conditional" /\ r.st # s =>
          /\ e.method \in {"GET", "HEAD"} /\ r.st.status = 304 /\ r.ret.v.body = ""
          /\ e.inm # None \/ e.ims.k = "ok"
    /\ e.op = "conditional" /\ r.st.status # 304 /\ e.method = "GET" /\ r.st.status # 204 => r.ret.v.body = s.body
=============================================================================
