------------------------------ MODULE Builder ------------------------------
(***************************************************************************)
(* Describing a request step by step.  A request builder is a description  *)
(* that can be changed through several views of the same thing: the base   *)
(* URL and its parts, the query string and the arguments, the body and the *)
(* form fields and files, the content type and the headers.  What is built *)
(* from it is always the request the description stands for at the moment. *)
(*                                                                         *)
(* Configuration c: [path, base, query, method, hdrs, ctype, clen, body,   *)
(* data, cs], query one of [t |-> none/text/pairs, s, pairs], body the     *)
(* input stream given, data as for the test client.                        *)
(***************************************************************************)
EXTENDS UrlForms, HttpText
Cl == INSTANCE Client

\* data are octets
NoStream == [on |-> FALSE, data |-> <<>>, pos |-> 0]
Stream(t, n) == [on |-> TRUE, data |-> t, pos |-> n]
\* headers by name, in any case; setting one replaces all of that name
Without(hs, n) == SelectSeq(hs, LAMBDA h : Lower(h[1]) # Lower(n))
Hdr(hs, n) == LET q == SelectSeq(hs, LAMBDA h : Lower(h[1]) = Lower(n)) IN IF q = <<>> THEN None ELSE q[1][2]
SetHdr(hs, n, v) == IF v = None THEN Without(hs, n) ELSE Append(Without(hs, n), <<n, v>>)
File(f) == [n |-> f.n, k |-> "file", v |-> f.v, fn |-> f.fn, ct |-> IF f.ct # None THEN f.ct ELSE Cl!FileType(f), closed |-> FALSE]

Base(s, u) == [s EXCEPT !.scheme = u.scheme, !.host = Netloc(u), !.root = RStrip(u.path, {"/"})]
Site(t) == IF t = None THEN Apart("http://localhost/") ELSE Apart(t)
BadSite(u) == u = Bad \/ u.query # "" \/ u.frag # ""
Conflict(c) == c.body # None /\ c.data.t # "none" /\ ~(c.data.t \in {"text", "bytes"} /\ c.data.s = "") /\ ~(c.data.t = "form" /\ c.data.fields = <<>>)
BadInit(c) == BadSite(Cl!BaseOf(c.base)) \/ Conflict(c)
InitState(c) ==
    LET cut == IF c.query.t = "none" THEN Find(c.path, "?") ELSE 0
        said == SetHdr(c.hdrs, "Content-Type", IF c.ctype = None THEN Hdr(c.hdrs, "Content-Type") ELSE c.ctype)
        given == c.data.t \in {"text", "bytes"} /\ c.data.s # ""
        raw == IF c.data.t = "text" THEN EncodeAs(c.data.s, c.cs) ELSE EncodeUtf8(c.data.s)
        s == [path |-> IriToUri(IF cut = 0 THEN c.path ELSE UpTo(c.path, cut - 1)).v, method |-> c.method, cs |-> c.cs,
              scheme |-> "", host |-> "", root |-> "",
              qs |-> IF cut # 0 THEN From(c.path, cut + 1) ELSE IF c.query.t = "text" THEN c.query.s ELSE None,
              args |-> IF c.query.t = "pairs" THEN c.query.pairs ELSE <<>>,
              stream |-> IF c.body # None THEN Stream(EncodeUtf8(c.body), 0) ELSE IF given THEN Stream(raw, 0) ELSE NoStream,
              form |-> IF c.data.t = "form" THEN SelectSeq(Cl!ByKey(c.data.fields, {}), LAMBDA f : f.k # "file") ELSE <<>>,
              files |-> IF c.data.t = "form" THEN LET q == SelectSeq(Cl!ByKey(c.data.fields, {}), LAMBDA f : f.k = "file") IN [i \in 1..Len(q) |-> File(q[i])] ELSE <<>>,
              \* a length given at first is the one in the headers
              hdrs |-> SetHdr(said, "Content-Length", IF c.clen # None THEN c.clen ELSE IF given THEN NatText(Len(raw)) ELSE None),
              closed |-> FALSE]
    IN IF BadInit(c) THEN s ELSE Base(s, Cl!BaseOf(c.base))
InitRet(c) == IF BadSite(Cl!BaseOf(c.base)) THEN Exc("ValueError") ELSE IF Conflict(c) THEN Exc("TypeError") ELSE Done

(* ---- the views ----------------------------------------------------------*)
QueryText(s) == IF s.qs # None THEN s.qs ELSE EncodeQuery(Cl!ByKeyPairs(s.args, {}), s.cs)
TypeOf(s) ==
    LET h == Hdr(s.hdrs, "Content-Type")
    IN IF h # None THEN h ELSE IF s.stream.on THEN None
       ELSE IF s.files # <<>> THEN "multipart/form-data" ELSE IF s.form # <<>> THEN "application/x-www-form-urlencoded" ELSE None
LengthOf(s) == LET h == Hdr(s.hdrs, "Content-Length") IN IF h = None \/ ~IsPyInt(h) THEN None ELSE IntText(PyInt(h))
BaseText(s) == s.scheme \o "://" \o s.host \o RStrip(s.root, {"/"}) \o "/"
Name(s) == Cl!UpToColon(s.host)
PortOf(s) == LET p == From(s.host, Cl!NameEnd(s.host) + 2) IN IF IsNat(p) THEN NatText(NatOf(p)) ELSE IF s.scheme = "https" THEN "443" ELSE "80"
Views(s) ==
    [base |-> BaseText(s), scheme |-> s.scheme, host |-> s.host, root |-> s.root, name |-> Name(s), port |-> PortOf(s),
     query |-> QueryText(s), ctype |-> TypeOf(s), clen |-> LengthOf(s), path |-> s.path, method |-> s.method, closed |-> s.closed]

(* ---- what is built ------------------------------------------------------*)
Kind(s) == Lower(ParseOptions(TypeOf(s)).name)
IsForm(s) == ~s.stream.on /\ TypeOf(s) # None /\ Kind(s) \in {"multipart/form-data", "application/x-www-form-urlencoded"}
IsMulti(s) == IsForm(s) /\ Kind(s) = "multipart/form-data"
Boundary(s) == Cl!Opt(ParseOptions(TypeOf(s)).opts, "boundary")
Body(s) ==
    IF s.stream.on THEN SubSeq(s.stream.data, s.stream.pos + 1, Len(s.stream.data))
    ELSE IF ~IsForm(s) THEN <<>>
    ELSE IF IsMulti(s) THEN Cl!Multipart(Cl!Ordered(s.form \o s.files), IF Boundary(s) = "" THEN "B" ELSE Boundary(s), s.cs)
    ELSE EncodeUtf8(Cl!UrlEncoded(Cl!ByKey(s.form, {}), s.cs))
Show(b) == "b:" \o DecodeLatin1(b)
\* a length that was given is believed only if there is no body to measure
Length(s) == IF s.stream.on \/ IsForm(s) THEN NatText(Len(Body(s))) ELSE IF LengthOf(s) = None THEN "0" ELSE LengthOf(s)
Built(s) ==
    [method |-> s.method, scheme |-> s.scheme, host |-> IF Hdr(s.hdrs, "Host") # None THEN Join([i \in 1..Len(SelectSeq(s.hdrs, LAMBDA h : Lower(h[1]) = "host")) |->
                SelectSeq(s.hdrs, LAMBDA h : Lower(h[1]) = "host")[i][2]], ", ") ELSE s.host,
     name |-> Name(s), port |-> PortOf(s), script |-> Cl!Wire(s.root), path |-> Cl!Wire(s.path), query |-> Cl!Raw(QueryText(s)),
     ctype |-> IF TypeOf(s) = None THEN "" ELSE IF IsMulti(s) /\ Boundary(s) = "" THEN TypeOf(s) \o "; boundary=\"B\"" ELSE TypeOf(s),
     length |-> Length(s), body |-> Show(Body(s)),
     hdrs |-> [SET |-> {h \in Cl!Merged(s.hdrs) : h[1] \notin {"CONTENT_TYPE", "CONTENT_LENGTH", "HOST"}}]]
\* files and streams that were read are at their end
Drained(s) ==
    IF s.stream.on THEN [s EXCEPT !.stream.pos = IF @ > Len(s.stream.data) THEN @ ELSE Len(s.stream.data)]
    ELSE IF IsMulti(s) THEN [s EXCEPT !.files = [i \in 1..Len(@) |-> [@[i] EXCEPT !.v = ""]]] ELSE s
Broken(s) == IsMulti(s) /\ \E i \in 1..Len(s.files) : s.files[i].closed

Pairs(fs) == LET q == Cl!ByKey(fs, {}) IN [i \in 1..Len(q) |-> <<q[i].n, q[i].v>>]
Listed(fs) == LET q == Cl!ByKey(fs, {}) IN [i \in 1..Len(q) |-> <<q[i].n, q[i].fn, q[i].ct>>]
NoAttr(s) == R(s, Exc("AttributeError"))
Cleared(s) == [s EXCEPT !.form = <<>>, !.files = <<>>]
Step(s, e) ==
    CASE e.op = "query" -> R([s EXCEPT !.qs = e.v, !.args = <<>>], Done)
      [] e.op = "args" -> R([s EXCEPT !.qs = None, !.args = e.pairs], Done)
      [] e.op = "arg" -> IF s.qs # None THEN NoAttr(s) ELSE R([s EXCEPT !.args = Append(@, <<e.n, e.v>>)], Done)
      [] e.op = "getargs" -> IF s.qs # None THEN NoAttr(s) ELSE R(s, Val(Cl!ByKeyPairs(s.args, {})))
      [] e.op = "form" -> R([s EXCEPT !.stream = NoStream, !.form = e.fields], Done)
      [] e.op = "field" -> IF s.stream.on THEN NoAttr(s) ELSE R([s EXCEPT !.form = Append(@, e.f)], Done)
      [] e.op = "getform" -> IF s.stream.on THEN NoAttr(s) ELSE R(s, Val(Pairs(s.form)))
      [] e.op = "files" -> R([s EXCEPT !.stream = NoStream, !.files = [i \in 1..Len(e.fields) |-> File(e.fields[i])]], Done)
      [] e.op = "file" -> IF s.stream.on THEN NoAttr(s) ELSE R([s EXCEPT !.files = Append(@, File(e.f))], Done)
      [] e.op = "getfiles" -> IF s.stream.on THEN NoAttr(s) ELSE R(s, Val(Listed(s.files)))
      \* the body takes the place of the form, and no body leaves an empty one
      [] e.op = "stream" -> R([Cleared(s) EXCEPT !.stream = IF e.v = None THEN NoStream ELSE Stream(EncodeUtf8(e.v), e.pos)], Done)
      [] e.op = "ctype" -> R([s EXCEPT !.hdrs = SetHdr(@, "Content-Type", e.v)], Done)
      [] e.op = "clen" -> R([s EXCEPT !.hdrs = SetHdr(@, "Content-Length", e.v)], Done)
      [] e.op = "header" -> R([s EXCEPT !.hdrs = Append(@, <<e.n, e.v>>)], Done)
      [] e.op = "noheader" -> R([s EXCEPT !.hdrs = Without(@, e.n)], Done)
      [] e.op = "base" -> IF BadSite(Site(e.v)) THEN R(s, Exc("ValueError")) ELSE R(Base(s, Site(e.v)), Done)
      [] e.op = "host" -> R([s EXCEPT !.host = e.v], Done)
      [] e.op = "root" -> R([s EXCEPT !.root = e.v], Done)
      [] e.op = "scheme" -> R([s EXCEPT !.scheme = e.v], Done)
      [] e.op = "path" -> R([s EXCEPT !.path = e.v], Done)
      [] e.op = "method" -> R([s EXCEPT !.method = e.v], Done)
      [] e.op = "build" -> IF Broken(s) THEN R(s, Exc("ValueError")) ELSE R(IF e.read THEN Drained(s) ELSE IF s.stream.on THEN s ELSE Drained(s), Val(Built(s)))
      [] e.op = "request" -> IF Broken(s) THEN R(s, Exc("ValueError"))
                             \* a body was announced and none is there
                             ELSE IF Body(s) = <<>> /\ Length(s) # "0" THEN R(s, Exc("ClientDisconnected"))
                             ELSE R(Drained(s), Val([method |-> Upper(s.method), length |-> Length(s), body |-> Show(Body(s)), mimetype |-> IF TypeOf(s) = None THEN "" ELSE Kind(s),
                                                     args |-> IF s.qs = None /\ s.cs = "utf-8" THEN Cl!ByKeyPairs(s.args, {}) ELSE <<>>]))
      \* closing reaches the files, not the body, and only the first time
      [] e.op = "close" ->
            R(IF s.closed THEN s ELSE [s EXCEPT !.closed = TRUE, !.files = [i \in 1..Len(@) |-> [@[i] EXCEPT !.closed = TRUE]]], Done)
Obs(s) == IF s.scheme = "" THEN [failed |-> TRUE] ELSE Views(s)

----------------------------------------------------------------------------
\* a query string and arguments never stand side by side, nor a body and a form
StateInv(s) ==
    /\ s.qs # None => s.args = <<>>
    /\ s.stream.on => s.form = <<>> /\ s.files = <<>>
StepInv(s, e, r) ==
    \* looking and building change no view of the description
    /\ e.op \in {"build", "request", "getargs", "getform", "getfiles"} => Views(r.st) = Views(s)
    \* what fails changes nothing
    /\ r.ret.k = "exc" => r.st = s
    \* the length is that of the body whenever there is one
    /\ (e.op = "build" /\ r.ret.k = "val" /\ Body(s) # <<>>) => r.ret.v.length = NatText(Len(Body(s)))
    \* the base URL can be read, taken apart and put together
    /\ (e.op = "base" /\ r.ret.k = "val") => Base(r.st, Site(BaseText(r.st))) = r.st
=============================================================================
