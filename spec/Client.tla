------------------------------- MODULE Client -------------------------------
(***************************************************************************)
(* The test client: how a described request reaches the application, what  *)
(* comes back, which cookies are kept and sent, and how redirects are      *)
(* followed.                                                               *)
(*                                                                         *)
(* The application is a table of rules c.rules, each [host, path, kind,    *)
(* status, loc, sets, write, chunks, late]; a request that fits no rule    *)
(* gets 404.  The state is [c, jar], jar the cookies kept, each            *)
(* [n, v, dom, path, secure].                                              *)
(***************************************************************************)
EXTENDS UrlForms, CookieText

InitState(c) == [c |-> c, jar |-> {}]
InitRet(c) == Done

(* ---- the description of a request ---------------------------------------*)
\* octets of a URL text, as the server passes them on
RECURSIVE EscOctets(_, _)
EscOctets(s, i) ==
    IF i > Len(s) THEN <<>>
    ELSE IF IsHex(s, i) THEN <<HexAt(s, i)>> \o EscOctets(s, i + 3)
    ELSE Utf8Of[Ch(s, i)] \o EscOctets(s, i + 1)
Wire(s) == DecodeLatin1(EscOctets(s, 1))
Raw(s) == DecodeLatin1(EncodeUtf8(s))
\* a host is a name or an address in brackets
NameEnd(h) == IF StartsWith(h, "[") THEN Find(h, "]") ELSE FirstOf(h, 1, {":"}) - 1
UpToColon(h) == UpTo(h, NameEnd(h))
Port(u) == LET h == Netloc(u) p == From(h, NameEnd(h) + 2) IN IF IsNat(p) THEN NatText(NatOf(p)) ELSE IF u.scheme = "https" THEN "443" ELSE "80"
NoBase == Apart("http://localhost/")
BaseOf(t) == IF t = None THEN NoBase ELSE LET f == UrlFix(t, "utf-8") IN IF f.k = "exc" THEN Bad ELSE Apart(f.v)

KeyOf(name) == ReplaceAll(Upper(name), "-", "_")
\* several headers of one name arrive as one
Merged(hdrs) ==
    LET K == {KeyOf(hdrs[i][1]) : i \in 1..Len(hdrs)}
    IN {<<k, LET q == SelectSeq(hdrs, LAMBDA h : KeyOf(h[1]) = k) IN Join([i \in 1..Len(q) |-> q[i][2]], ", ")>> : k \in K}
\* what stands by default and what overrides, as the environment has it
Layered(base, mid, over) ==
    LET K(S) == {h[1] : h \in S} IN over \union {h \in mid : h[1] \notin K(over)} \union {h \in base : h[1] \notin K(over) \union K(mid)}
HdrOf(hdrs, key) == LET q == SelectSeq(hdrs, LAMBDA h : KeyOf(h[1]) = key) IN IF q = <<>> THEN None ELSE q[1][2]

\* ---- forms: fields are [n, k, v, fn, ct] with k in text, file
RECURSIVE ByKey(_, _)
ByKey(fs, seen) ==
    IF fs = <<>> THEN <<>>
    ELSE IF fs[1].n \in seen THEN ByKey(Tail(fs), seen)
    ELSE SelectSeq(fs, LAMBDA f : f.n = fs[1].n) \o ByKey(Tail(fs), seen \union {fs[1].n})
\* a form is a multi dict: values of one name are together
TextFields(fs) == SelectSeq(ByKey(fs, {}), LAMBDA f : f.k # "file")
FileFields(fs) == SelectSeq(ByKey(fs, {}), LAMBDA f : f.k = "file")
\* fields and files of one name stay together
Ordered(fs) == ByKey(TextFields(fs) \o FileFields(fs), {})
UrlEncoded(fs, cs) == EncodeQuery([i \in 1..Len(fs) |-> <<fs[i].n, fs[i].v>>], cs)
Guess(fn) == CASE EndsWith(fn, ".txt") -> "text/plain" [] EndsWith(fn, ".png") -> "image/png" [] OTHER -> "application/octet-stream"
FileType(f) == IF f.ct # None THEN f.ct ELSE IF f.fn = None THEN "application/octet-stream" ELSE Guess(f.fn)
Crlf == "\r\n"
PartText(f, boundary, cs) ==
    LET head == "--" \o boundary \o Crlf \o "Content-Disposition: form-data; name=\"" \o f.n \o "\""
    IN (IF f.k = "file"
        THEN EncodeAs(head \o (IF f.fn = None THEN "" ELSE "; filename=\"" \o f.fn \o "\"") \o Crlf
                      \o "Content-Type: " \o FileType(f) \o Crlf \o Crlf, cs) \o EncodeUtf8(f.v)
        ELSE EncodeAs(head \o Crlf \o Crlf, cs) \o (IF f.k = "bytes" THEN EncodeUtf8(f.v) ELSE EncodeAs(f.v, cs)))
       \o EncodeUtf8(Crlf)
Multipart(fs, boundary, cs) == Flat([i \in 1..Len(fs) |-> PartText(fs[i], boundary, cs)]) \o EncodeUtf8("--" \o boundary \o "--" \o Crlf)

TypeGiven(d) == IF d.ctype # None THEN d.ctype ELSE HdrOf(d.hdrs, "CONTENT_TYPE")
Opt(o, k) == LET q == SelectSeq(o, LAMBDA p : p[1] = k) IN IF q = <<>> THEN "" ELSE q[1][2]
\* [ctype, body]; a boundary of the client's choice is written as B
BodyOf(d) ==
    LET given == TypeGiven(d)
        none == [ctype |-> IF given = None THEN "" ELSE given, body |-> <<>>]
    IN CASE d.data.t = "none" -> none
         [] d.data.t = "text" -> [none EXCEPT !.body = EncodeAs(d.data.s, d.cs)]
         [] d.data.t = "bytes" -> [none EXCEPT !.body = EncodeUtf8(d.data.s)]
         [] d.data.t = "form" ->
              IF d.data.fields = <<>> THEN none
              ELSE LET ct == IF given # None THEN given
                             ELSE IF FileFields(d.data.fields) # <<>> THEN "multipart/form-data"
                             ELSE "application/x-www-form-urlencoded"
                       p == ParseOptions(ct)
                       b == Opt(p.opts, "boundary")
                   IN CASE Lower(p.name) = "multipart/form-data" ->
                             [ctype |-> IF b = "" THEN ct \o "; boundary=\"B\"" ELSE ct,
                              body |-> Multipart(Ordered(d.data.fields), IF b = "" THEN "B" ELSE b, d.cs)]
                        [] Lower(p.name) = "application/x-www-form-urlencoded" ->
                             [ctype |-> ct, body |-> EncodeUtf8(UrlEncoded(TextFields(d.data.fields), d.cs))]
RECURSIVE ByKeyPairs(_, _)
ByKeyPairs(ps, seen) ==
    IF ps = <<>> THEN <<>>
    ELSE IF ps[1][1] \in seen THEN ByKeyPairs(Tail(ps), seen)
    ELSE SelectSeq(ps, LAMBDA p : p[1] = ps[1][1]) \o ByKeyPairs(Tail(ps), seen \union {ps[1][1]})
QueryOf(d) ==
    CASE d.query.t = "none" -> IF Contains(d.path, "?") THEN Raw(From(d.path, Find(d.path, "?") + 1)) ELSE ""
      [] d.query.t = "text" -> Raw(d.query.s)
      [] d.query.t = "pairs" -> EncodeQuery(ByKeyPairs(d.query.pairs, {}), d.cs)

\* what the application is given
RequestOf(d) ==
    LET u == BaseOf(d.base)
        target == IF d.query.t = "none" /\ Contains(d.path, "?") THEN UpTo(d.path, Find(d.path, "?") - 1) ELSE d.path
        b == BodyOf(d)
    IN [method |-> d.method, scheme |-> u.scheme, host |-> Netloc(u), name |-> UpToColon(Netloc(u)), port |-> Port(u),
        script |-> Wire(RStrip(u.path, {"/"})), path |-> Wire(IriToUri(target).v), query |-> QueryOf(d),
        ctype |-> b.ctype, body |-> b.body, length |-> NatText(Len(b.body)),
        hdrs |-> Layered({<<h[1], h[2]>> : h \in Range(d.below)}, {h \in Merged(d.hdrs) : h[1] \notin {"COOKIE", "CONTENT_TYPE"}}, {<<h[1], h[2]>> : h \in Range(d.above)}),
        cookie |-> HdrOf(d.hdrs, "COOKIE")]
Valid(d) == LET u == BaseOf(d.base) IN u # Bad /\ u.query = "" /\ u.frag = ""

(* ---- cookies ------------------------------------------------------------*)
\* a host without dots counts as a local one
Eff(h) == IF Contains(h, ".") THEN h ELSE h \o ".local"
UrlPath(q) == RStrip(q.script, {"/"}) \o "/" \o LStrip(q.path, {"/"})
DefaultPath(p) == LET t == UpTo(p, RFind(p, "/") - 1) IN IF t = "" THEN "/" ELSE t
\* [n, v, dom, path, secure, age] as the server sets it
DomOk(h, dom) == LET d == IF StartsWith(dom, ".") THEN dom ELSE "." \o dom
                 IN Contains(From(d, 2), ".") /\ EndsWith("." \o Eff(h), d)
Keep(jar, q, k) ==
    LET h == UpToColon(q.host)
        dom == IF k.dom = None THEN Eff(h) ELSE IF StartsWith(k.dom, ".") THEN k.dom ELSE "." \o k.dom
        path == IF k.path = None \/ k.path = "" THEN DefaultPath(UrlPath(q)) ELSE k.path
        rest == {x \in jar : ~(x.n = k.n /\ x.dom = dom /\ x.path = path)}
    IN IF k.dom # None /\ ~DomOk(h, k.dom) THEN jar
       ELSE IF k.age = "gone" THEN rest
       ELSE rest \union {[n |-> k.n, v |-> k.v, dom |-> dom, path |-> path, secure |-> k.secure]}
RECURSIVE KeepAll(_, _, _)
KeepAll(jar, q, ks) == IF ks = <<>> THEN jar ELSE KeepAll(Keep(jar, q, ks[1]), q, Tail(ks))
Fits(x, q) ==
    LET h == Eff(UpToColon(q.host))
        p == UrlPath(q)
    IN /\ EndsWith("." \o h, IF StartsWith(x.dom, ".") THEN x.dom ELSE "." \o x.dom)
       /\ (p = x.path \/ (StartsWith(p, x.path) /\ (EndsWith(x.path, "/") \/ Ch(p, Len(x.path) + 1) = "/")))
       /\ (x.secure => q.scheme = "https")
Sent(jar, q) == {x.n \o "=" \o x.v : x \in {x \in jar : Fits(x, q)}}

(* ---- the application ----------------------------------------------------*)
Missing == [host |-> "", path |-> "", kind |-> "list", status |-> "404 Not Found", loc |-> None, sets |-> <<>>,
            write |-> <<>>, chunks |-> <<"none">>, late |-> <<>>]
RuleFor(c, q) ==
    LET h == UpToColon(q.host)
        S == {i \in 1..Len(c.rules) : c.rules[i].path = q.script \o q.path /\ c.rules[i].host \in {"*", h}}
    IN IF S = {} THEN Missing ELSE c.rules[MinOf(S)]
\* a generator writes once more before its end
Content(r) == Join(r.write, "") \o Join(r.chunks, "") \o Join(r.late, "")
Shown(q, sent) ==
    [method |-> q.method, scheme |-> q.scheme, host |-> q.host, name |-> q.name, port |-> q.port, script |-> q.script, path |-> q.path,
     query |-> q.query, ctype |-> q.ctype, body |-> "b:" \o DecodeLatin1(q.body), length |-> q.length,
     hdrs |-> [SET |-> q.hdrs], cookies |-> [SET |-> IF sent # {} \/ q.cookie = None THEN sent ELSE {q.cookie}]]

(* ---- redirects ----------------------------------------------------------*)
Redirects == {"301", "302", "303", "305", "307", "308"}
Code(r) == UpTo(r.status, 3)
HasScheme(l) == StartsWith(l, "http://") \/ StartsWith(l, "https://")
RECURSIVE Dots(_, _)
Dots(segs, out) ==
    IF segs = <<>> THEN out
    ELSE Dots(Tail(segs), IF segs[1] = ".." THEN (IF out = <<>> THEN out ELSE SubSeq(out, 1, Len(out) - 1))
                          ELSE IF segs[1] = "." THEN out ELSE Append(out, segs[1]))
\* segments of a path without the empty one before the first slash
Segs(p) == Tail(Split(p, "/"))
Tidy(segs) ==
    LET last == segs[Len(segs)]
    IN "/" \o Join(Dots(segs, <<>>) \o (IF last \in {".", ".."} THEN <<"">> ELSE <<>>), "/")
\* where a Location leads from request q, as a URL
Resolve(q, l) ==
    LET site == q.scheme \o "://" \o q.host
        at == Apart(UriToIri(site \o QuoteUrl(UrlPath(q), {"/"}, "utf-8") \o "?" \o QuoteUrl(q.query, FixSafe, "utf-8")).v)
        here == at.path
        tailat == FirstOf(l, 1, {"?", "#"})
        p == UpTo(l, tailat - 1)
        tail == From(l, tailat)
        up == Segs(here)
    IN IF HasScheme(l) THEN l
       ELSE IF StartsWith(l, "//") THEN q.scheme \o ":" \o l
       ELSE IF p = "" THEN site \o here \o (IF StartsWith(tail, "?") THEN tail ELSE (IF at.query = "" THEN "" ELSE "?" \o at.query) \o tail)
       ELSE IF StartsWith(p, "/") THEN site \o Tidy(Segs(p)) \o tail
       ELSE site \o Tidy(SubSeq(up, 1, Len(up) - 1) \o Split(p, "/")) \o tail
NameOf(h) == Split(UpToColon(h), ".")
Under(a, b) == LET x == NameOf(a) y == NameOf(b) IN Len(x) >= Len(y) /\ SubSeq(x, Len(x) - Len(y) + 1, Len(x)) = y
Allowed(c, to, from) == IF c.sub THEN Under(to, from) ELSE NameOf(to) = NameOf(from)
\* the request that follows; the script root is kept if the target lies below
Follow(q, url, code) ==
    LET u == Apart(IriToUri(url).v)
        inside == StartsWith(Wire(u.path) \o "/", RStrip(q.script, {"/"}) \o "/")
        script == IF inside THEN RStrip(q.script, {"/"}) ELSE ""
    IN [method |-> IF code \in {"307", "308"} \/ q.method = "HEAD" THEN q.method ELSE "GET",
        scheme |-> u.scheme, host |-> Netloc(u), name |-> UpToColon(Netloc(u)), port |-> Port(u),
        script |-> script, path |-> From(Wire(u.path), Len(script) + 1), query |-> u.query,
        ctype |-> "", body |-> <<>>, length |-> "0", hdrs |-> {}, cookie |-> None]

RECURSIVE Run(_, _, _, _, _, _)
\* seen: the requests made so far, chain: the redirects taken
Run(c, jar, q, follow, seen, chain) ==
    LET sent == IF c.cookies THEN Sent(jar, q) ELSE {}
        r == RuleFor(c, q)
        log == Append(seen, Shown(q, sent))
        jar2 == IF c.cookies THEN KeepAll(jar, q, r.sets) ELSE jar
        to == Resolve(q, r.loc)
        step == <<to, Code(r)>>
    IN IF r.kind \in {"raise", "excinfo", "retraced"} THEN [jar |-> jar, log |-> log, end |-> Exc("ValueError")]
       ELSE IF follow /\ Code(r) \in Redirects
       THEN IF step \in chain THEN [jar |-> jar2, log |-> log, end |-> Exc("ClientRedirectError")]
            ELSE IF ~Allowed(c, Netloc(Apart(to)), q.host) THEN [jar |-> jar2, log |-> log, end |-> Exc("RuntimeError")]
            ELSE Run(c, jar2, Follow(q, to, Code(r)), follow, log, chain \union {step})
       ELSE [jar |-> jar2, log |-> log,
             end |-> Val([status |-> r.status, body |-> Content(r), loc |-> r.loc, sets |-> Len(r.sets)])]

Set1(e) == [n |-> e.n, v |-> CookieQuote(e.v, "utf-8"), dom |-> e.dom, path |-> e.path, secure |-> e.secure, age |-> e.age]
Step(st, e) ==
    LET c == st.c IN
    CASE e.op = "build" -> R(st, IF Valid(e.d) THEN Val(Shown(RequestOf(e.d), {})) ELSE Exc("ValueError"))
      [] e.op = "multipart" -> R(st, LET b == Multipart(ByKey(e.fields, {}), "B", e.cs)
                                     IN Val([body |-> "b:" \o DecodeLatin1(b), length |-> Len(b)]))
      [] e.op = "open" ->
            IF ~Valid(e.d) THEN R(st, Val([log |-> <<>>, end |-> Exc("ValueError"), closed |-> TRUE]))
            ELSE LET x == Run(c, st.jar, RequestOf(e.d), e.follow, <<>>, {})
                 IN R([st EXCEPT !.jar = x.jar], Val([log |-> x.log, end |-> x.end, closed |-> TRUE]))
      \* a cookie put into the jar by hand, as if the server had set it there
      [] e.op = "set" ->
            IF ~c.cookies THEN R(st, Exc("AssertionError"))
            ELSE IF BadDomain(e.dom) THEN R(st, Exc("ValueError"))
            ELSE R([st EXCEPT !.jar = Keep(st.jar, [host |-> e.host, script |-> "", path |-> e.path], Set1(e))], Done)
Obs(st) == 0

\* C21
StateInv(st) ==
    /\ ~st.c.cookies => st.jar = {}
    /\ \A x, y \in st.jar : x.n = y.n /\ x.dom = y.dom /\ x.path = y.path => x = y
Hops(e, r) == r.ret.v.log
StepInv(st, e, r) ==
    e.op = "open" /\ r.ret.v.log # <<>> =>
        LET log == Hops(e, r) IN
        \* without following there is one request; the described one comes first
        /\ ~e.follow => Len(log) = 1
        /\ log[1].method = e.d.method
        /\ \A i \in 1..Len(log) :
            \* no foreign host ever sees a request
            /\ IF st.c.sub THEN Under(log[i].host, log[1].host) ELSE NameOf(log[i].host) = NameOf(log[1].host)
            /\ i > 1 => log[i].method \in {log[1].method, "GET"} /\ log[i].body = "b:"
        \* what came back in the end is no redirect to be followed
        /\ e.follow /\ r.ret.v.end.k = "val" => UpTo(r.ret.v.end.v.status, 3) \notin Redirects
=============================================================================
