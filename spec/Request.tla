------------------------------ MODULE Request ------------------------------
(***************************************************************************)
(* Request objects: every view as a function of the server's environment,  *)
(* and reading the body.  The state is [c, cached, pos, calls]: c the      *)
(* environment, cached <<>> or <<octets>>, pos the octets already taken    *)
(* from the stream, calls the functions registered to run at the end.      *)
(*                                                                         *)
(* c.err says how the class of the request decodes text: "replace",        *)
(* "ignore" or "strict"; c.own that it chose mutable structures.           *)
(* files are the uploaded files the program attached that are still open.  *)
(* c.hdrs is a sequence of <<key, value>>; the key as the server spells it *)
(* after HTTP_.  None stands for an absent entry.                          *)
(***************************************************************************)
EXTENDS ETags, Ranges, CookieText

Min2(a, b) == IF a < b THEN a ELSE b
InitState(c) == [c |-> c, cached |-> <<>>, pos |-> 0, calls |-> <<>>, files |-> 0]
InitRet(c) == Done

(* ---- headers ------------------------------------------------------------*)
KeyOf(name) == ReplaceAll(Upper(name), "-", "_")
Own == {"CONTENT_TYPE", "CONTENT_LENGTH"}
Hdr(c, key) ==
    IF key = "CONTENT_TYPE" THEN c.ctype
    ELSE IF key = "CONTENT_LENGTH" THEN c.clen
    ELSE LET i == FirstIdx(c.hdrs, LAMBDA h : h[1] = key) IN IF i = 0 THEN None ELSE c.hdrs[i][2]
RECURSIVE TitleFrom(_, _)
TitleFrom(s, i) ==
    IF i > Len(s) THEN ""
    ELSE (IF i = 1 \/ Ch(s, i - 1) \notin AlphaSet THEN Upper(Ch(s, i)) ELSE Lower(Ch(s, i))) \o TitleFrom(s, i + 1)
NameOf(key) == TitleFrom(ReplaceAll(key, "_", "-"), 1)
Items(c) ==
    (IF c.ctype = None THEN <<>> ELSE << <<"Content-Type", c.ctype>> >>)
    \o (IF c.clen = None THEN <<>> ELSE << <<"Content-Length", c.clen>> >>)
    \o LET q == SelectSeq(c.hdrs, LAMBDA h : h[1] \notin Own) IN [i \in 1..Len(q) |-> <<NameOf(q[i][1]), q[i][2]>>]
Named(c, name) == LET q == SelectSeq(Items(c), LAMBDA h : Lower(h[1]) = Lower(name)) IN [i \in 1..Len(q) |-> q[i][2]]
Number(t) == IF t # None /\ IsPyInt(t) THEN IntText(PyInt(t)) ELSE None

(* ---- text of the request line -------------------------------------------*)
\* the octets the client sent, as UTF-8 text
Sane(c, b) == c.err # "strict" \/ ValidUtf8(b)
DecodeIn(c, b) == IF c.err = "ignore" THEN ReplaceAll(DecodeUtf8(b), CharTab.repl, "") ELSE DecodeUtf8(b)
Raw(c, t) == IF t = None THEN <<>> ELSE EncodeAs(t, c.cs)
Sent(c, t) == DecodeIn(c, Raw(c, t))
IsEsc(s, i) == i + 2 <= Len(s) /\ Ch(s, i) = "%" /\ Ch(s, i + 1) \in DOMAIN HexVal /\ Ch(s, i + 2) \in DOMAIN HexVal
RECURSIVE EscOctets(_, _)
EscOctets(s, i) ==
    IF i > Len(s) THEN <<>>
    ELSE IF IsEsc(s, i) THEN <<16 * HexVal[Ch(s, i + 1)] + HexVal[Ch(s, i + 2)]>> \o EscOctets(s, i + 3)
    ELSE Utf8Of[Ch(s, i)] \o EscOctets(s, i + 1)
Decoded(c, s) == LET t == ReplaceAll(s, "+", " ") IN IF Contains(t, "%") THEN DecodeIn(c, EscOctets(t, 1)) ELSE t
Pairs(c, qs) ==
    LET q == SelectSeq(Split(qs, "&"), LAMBDA x : x # "")
    IN [i \in 1..Len(q) |-> LET e == Find(q[i], "=")
                            IN IF e = 0 THEN <<Decoded(c, q[i]), "">> ELSE <<Decoded(c, UpTo(q[i], e - 1)), Decoded(c, From(q[i], e + 1))>>]
SanePairs(c, qs) ==
    \A x \in Range(Split(qs, "&")) :
        LET e == Find(x, "=")
            ok(t) == Sane(c, EscOctets(ReplaceAll(t, "+", " "), 1))
        IN IF e = 0 THEN ok(x) ELSE ok(UpTo(x, e - 1)) /\ ok(From(x, e + 1))
Keys(ps) == {ps[i][1] : i \in 1..Len(ps)}
Lists(ps) == [SET |-> {<<k, LET q == SelectSeq(ps, LAMBDA p : p[1] = k) IN [i \in 1..Len(q) |-> q[i][2]]>> : k \in Keys(ps)}]
Path(c) == "/" \o LStrip(Sent(c, c.path), {"/"})

(* ---- the views ----------------------------------------------------------*)
Length(c) == IF c.clen = None \/ ~IsPyInt(c.clen) THEN -1 ELSE IF PyInt(c.clen) < 0 THEN 0 ELSE PyInt(c.clen)
Date(t) == IF t = None \/ Strip(t, White) = "" THEN NoDate ELSE ParseDate(Strip(t, White))
Text0(t) == IF t = None THEN "" ELSE t
Tags(t) == LET x == ParseTags(t) IN [strong |-> [SET |-> x.strong], weak |-> [SET |-> x.weak], star |-> x.star]
IfRange(t) ==
    IF t = None \/ t = "" THEN [tag |-> None, date |-> NoDate]
    ELSE IF Date(t) # NoDate THEN [tag |-> None, date |-> Date(t)]
    ELSE [tag |-> TagOf(t).v, date |-> NoDate]
Route(c) ==
    LET f == Hdr(c, "X_FORWARDED_FOR")
        p == Split(f, ",")
    IN IF f # None THEN [i \in 1..Len(p) |-> Strip(p[i], White)] ELSE IF c.remote # None THEN <<c.remote>> ELSE <<>>
Cookies(c) ==
    LET q == SelectSeq(CookieFrom(Text0(Hdr(c, "COOKIE")), 1), LAMBDA x : Lower(x[1]) \notin Attributes)
        T(x) == DecodeIn(c, CookieUnquote(x, "latin-1"))
        F[i \in 0..Len(q)] == IF i = 0 THEN <<>> ELSE DictPut(F[i - 1], T(q[i][1]), T(q[i][2]))
    IN [SET |-> Range(F[Len(q)])]
Mime(c) == ParseOptions(Text0(c.ctype))
Views(c) ==
    [method |-> IF c.method = None THEN "GET" ELSE Upper(c.method),
     path |-> Path(c),
     full_path |-> Path(c) \o "?" \o Sent(c, c.query),
     script_root |-> RStrip(Sent(c, c.script), {"/"}),
     query_string |-> Sent(c, c.query),
     args |-> Lists(Pairs(c, Sent(c, c.query))),
     content_type |-> c.ctype,
     content_length |-> Length(c),
     content_encoding |-> Hdr(c, "CONTENT_ENCODING"),
     content_md5 |-> Hdr(c, "CONTENT_MD5"),
     referrer |-> Hdr(c, "REFERER"),
     date |-> Date(Hdr(c, "DATE")),
     max_forwards |-> Number(Hdr(c, "MAX_FORWARDS")),
     mimetype |-> Lower(Mime(c).name),
     mimetype_params |-> DictSet(Mime(c).opts),
     pragma |-> LET q == ParseList(Text0(Hdr(c, "PRAGMA"))) IN [SET |-> {Lower(q[i]) : i \in 1..Len(q)}],
     access_route |-> Route(c),
     remote_addr |-> c.remote, remote_user |-> c.user, scheme |-> c.scheme,
     is_xhr |-> Lower(Text0(Hdr(c, "X_REQUESTED_WITH"))) = "xmlhttprequest",
     is_secure |-> c.scheme = "https",
     is_multithread |-> c.flags[1], is_multiprocess |-> c.flags[2], is_run_once |-> c.flags[3],
     cache_control |-> DictSet(ParseDict(Text0(Hdr(c, "CACHE_CONTROL")))),
     if_match |-> Tags(Hdr(c, "IF_MATCH")), if_none_match |-> Tags(Hdr(c, "IF_NONE_MATCH")),
     if_modified_since |-> Date(Hdr(c, "IF_MODIFIED_SINCE")), if_unmodified_since |-> Date(Hdr(c, "IF_UNMODIFIED_SINCE")),
     if_range |-> IfRange(Hdr(c, "IF_RANGE")),
     range |-> ParseRange(Text0(Hdr(c, "RANGE"))),
     cookies |-> Cookies(c),
     headers |-> [SET |-> Range(Items(c))], count |-> Len(Items(c)),
     populated |-> c.populate /\ ~c.shallow,
     kinds |-> IF c.own THEN "mutable" ELSE "immutable",
     repr |-> TRUE]
\* one view of a request that insists on proper text
OneView(c, name) ==
    LET q == Sent(c, c.query)
        okq == Sane(c, Raw(c, c.query))
        ok == CASE name = "path" -> Sane(c, Raw(c, c.path))
                [] name = "script_root" -> Sane(c, Raw(c, c.script))
                [] name = "query_string" -> okq
                [] name = "full_path" -> Sane(c, Raw(c, c.path)) /\ okq
                [] name = "args" -> okq /\ SanePairs(c, q)
    IN IF ~ok THEN Exc("UnicodeDecodeError")
       ELSE Val(CASE name = "path" -> Path(c)
                  [] name = "script_root" -> RStrip(Sent(c, c.script), {"/"})
                  [] name = "query_string" -> q
                  [] name = "full_path" -> Path(c) \o "?" \o q
                  [] name = "args" -> Lists(Pairs(c, q)))

(* ---- the body -----------------------------------------------------------*)
Body(c) == EncodeAs(c.body, c.bcs)
\* what the request may read of it: nothing without an announced length
Avail(c) == LET n == Length(c) IN IF c.terminated THEN Len(Body(c)) ELSE IF n < 0 THEN 0 ELSE n
Take(st, n) ==
    LET left == Avail(st.c) - st.pos
        k == IF n < 0 THEN left ELSE Min2(n, left)
    IN [st |-> [st EXCEPT !.pos = @ + k], b |-> SubSeq(Body(st.c), st.pos + 1, st.pos + k)]
Shown(c, b, text) ==
    IF ~text THEN Val("b:" \o DecodeLatin1(b)) ELSE IF ~Sane(c, b) THEN Exc("UnicodeDecodeError") ELSE Val(DecodeIn(c, b))
GetData(st, cache, text) ==
    LET t == Take(st, -1)
    IN IF st.cached # <<>> THEN R(st, Shown(st.c, st.cached[1], text))
       ELSE IF st.c.shallow THEN R(st, Exc("RuntimeError"))
       ELSE R(IF cache THEN [t.st EXCEPT !.cached = <<t.b>>] ELSE t.st, Shown(st.c, t.b, text))

Step(st, e) ==
    LET c == st.c IN
    CASE e.op = "views" -> R(st, Val(Views(c)))
      [] e.op = "header" ->
            LET v == Hdr(c, KeyOf(e.name))
            IN R(st, Val([in |-> v # None, get |-> v, list |-> Named(c, e.name), int |-> Number(v),
                          item |-> IF v = None THEN Exc("KeyError") ELSE Val(v)]))
      [] e.op = "change" -> R(st, Exc("TypeError"))
      [] e.op = "same" -> R(st, Val(e.with = "itself"))
      [] e.op = "data" -> GetData(st, e.cache, e.text)
      [] e.op = "read" ->
            IF c.shallow THEN R(st, Exc("RuntimeError"))
            ELSE LET t == Take(st, e.n) IN R(t.st, Shown(c, t.b, FALSE))
      [] e.op = "call" -> R([st EXCEPT !.calls = Append(@, e.tag)], Val(TRUE))
      [] e.op = "close" -> R([st EXCEPT !.calls = <<>>, !.files = 0], Val(st.calls))
      [] e.op = "one" -> R(st, OneView(c, e.name))
      [] e.op = "attach" -> R([st EXCEPT !.files = e.n], Val(TRUE))
      \* what a parser of the body would read: the cached octets again, or the rest
      [] e.op = "parse" ->
            IF st.cached # <<>> THEN R(st, Shown(c, st.cached[1], FALSE))
            ELSE IF c.shallow THEN R(st, Exc("RuntimeError"))
            ELSE LET t == Take(st, -1) IN R(t.st, Shown(c, t.b, FALSE))
\* the raw input is left alone by everything but reading
Obs(st) == [taken |-> st.pos, open |-> st.files]

\* C25
StateInv(st) ==
    /\ st.pos <= Len(Body(st.c))
    /\ st.c.shallow => st.pos = 0 /\ st.cached = <<>>
    /\ st.pos <= Avail(st.c)
StepInv(st, e, r) ==
    /\ e.op \notin {"data", "read", "parse"} => r.st.pos = st.pos
    \* cached data stay what they are
    /\ e.op = "data" /\ st.cached # <<>> => r.ret = Shown(st.c, st.cached[1], e.text)
    /\ e.op = "header" /\ r.ret.v.in => r.ret.v.list = <<r.ret.v.get>>
    /\ e.op = "views" =>
        LET v == r.ret.v IN
        /\ StartsWith(v.path, "/") /\ ~StartsWith(v.path, "//") /\ ~EndsWith(v.script_root, "/")
        /\ v.full_path = v.path \o "?" \o v.query_string
        /\ v.count = Cardinality(v.headers.SET)
        /\ v.method = Upper(v.method)
=============================================================================
