------------------------------ MODULE RespHead ------------------------------
(***************************************************************************)
(* The head of a response: its status as number and as text, and its       *)
(* headers seen through the typed properties of the response object.       *)
(*                                                                         *)
(* c: [cs, dm, ds, auto], the class: charset, default MIME type (None: no  *)
(* default), default status and whether the length is set automatically.   *)
(* A status is [s |-> "none" | "int" | "text", n, t].                      *)
(***************************************************************************)
EXTENDS HttpText, Calendar, TLC
RS == INSTANCE Resp
H == INSTANCE Headers

Reasons == TLCEval(
    (100 :> "Continue") @@ (101 :> "Switching Protocols") @@ (102 :> "Processing") @@ (200 :> "OK") @@ (201 :> "Created")
    @@ (202 :> "Accepted") @@ (203 :> "Non Authoritative Information") @@ (204 :> "No Content") @@ (205 :> "Reset Content")
    @@ (206 :> "Partial Content") @@ (207 :> "Multi Status") @@ (226 :> "IM Used") @@ (300 :> "Multiple Choices")
    @@ (301 :> "Moved Permanently") @@ (302 :> "Found") @@ (303 :> "See Other") @@ (304 :> "Not Modified") @@ (305 :> "Use Proxy")
    @@ (307 :> "Temporary Redirect") @@ (400 :> "Bad Request") @@ (401 :> "Unauthorized") @@ (402 :> "Payment Required")
    @@ (403 :> "Forbidden") @@ (404 :> "Not Found") @@ (405 :> "Method Not Allowed") @@ (406 :> "Not Acceptable")
    @@ (407 :> "Proxy Authentication Required") @@ (408 :> "Request Timeout") @@ (409 :> "Conflict") @@ (410 :> "Gone")
    @@ (411 :> "Length Required") @@ (412 :> "Precondition Failed") @@ (413 :> "Request Entity Too Large")
    @@ (414 :> "Request URI Too Long") @@ (415 :> "Unsupported Media Type") @@ (416 :> "Requested Range Not Satisfiable")
    @@ (417 :> "Expectation Failed") @@ (418 :> "I'm a teapot") @@ (422 :> "Unprocessable Entity") @@ (423 :> "Locked")
    @@ (424 :> "Failed Dependency") @@ (426 :> "Upgrade Required") @@ (428 :> "Precondition Required") @@ (429 :> "Too Many Requests")
    @@ (431 :> "Request Header Fields Too Large") @@ (449 :> "Retry With") @@ (500 :> "Internal Server Error")
    @@ (501 :> "Not Implemented") @@ (502 :> "Bad Gateway") @@ (503 :> "Service Unavailable") @@ (504 :> "Gateway Timeout")
    @@ (505 :> "HTTP Version Not Supported") @@ (507 :> "Insufficient Storage") @@ (510 :> "Not Extended"))

(* ---- status: number and text always agree --------------------------------*)
ByNumber(n) == [code |-> n, status |-> IntText(n) \o " " \o (IF n \in DOMAIN Reasons THEN Upper(Reasons[n]) ELSE "UNKNOWN")]
FirstWord(t) == LET s == LStrip(t, White) IN UpTo(s, SkipNot(s, 1, White) - 1)
ByText(t) ==
    LET w == FirstWord(t)
    IN IF IsPyInt(w) THEN [code |-> PyInt(w), status |-> t] ELSE [code |-> 0, status |-> "0 " \o t]
StatusOf(x, c) == LET y == IF x.s = "none" THEN c.ds ELSE x IN IF y.s = "int" THEN ByNumber(y.n) ELSE ByText(y.t)

(* ---- content type --------------------------------------------------------*)
IsText(m) == StartsWith(m, "text/") \/ m = "application/xml" \/ (StartsWith(m, "application/") /\ EndsWith(m, "+xml"))
FullType(m, cs) == IF IsText(m) THEN m \o "; charset=" \o cs ELSE m
Typed(h, mimetype, ctype, dm, cs) ==
    IF ctype # None THEN H!SetField(h, "Content-Type", ctype)
    ELSE LET m == IF mimetype # None THEN mimetype ELSE IF H!Has(h, "content-type") THEN None ELSE dm
         IN IF m = None THEN h ELSE H!SetField(h, "Content-Type", FullType(m, cs))

(* ---- what the properties read --------------------------------------------*)
TextProps == << <<"location", "Location">>, <<"content_type", "Content-Type">>, <<"content_location", "Content-Location">>,
                <<"content_encoding", "Content-Encoding">>, <<"content_md5", "Content-MD5">>, <<"accept_ranges", "Accept-Ranges">> >>
DateProps == << <<"age", "Age">>, <<"date", "Date">>, <<"expires", "Expires">>, <<"last_modified", "Last-Modified">> >>
NameOf(p) == LET all == TextProps \o DateProps \o << <<"content_length", "Content-Length">>, <<"retry_after", "Retry-After">>, <<"mimetype", "Content-Type">> >>
             IN all[FirstIdx(all, LAMBDA x : x[1] = p)][2]
Field(h, name) == IF H!Has(h, name) THEN H!First(h, name) ELSE None
ShowDate(x) == IF x = NoDate THEN None ELSE <<x.d, x.s>>
ReadDate(t) == IF t = None THEN None ELSE ShowDate(ParseDate(t))
ReadType(t) == IF t \in {None, ""} THEN None ELSE Strip(UpTo(t, SkipNot(t, 1, {";"}) - 1), White)
ReadLen(t) == IF t = None THEN None ELSE IF IsPyInt(t) THEN PyInt(t) ELSE None
\* seconds from now, or a date; what is beyond the calendar is no time
Digits(t) == t # "" /\ AllIn(t, DigitSet \union {CharTab.sup2})
ReadRetry(t) ==
    IF t = None THEN None
    ELSE IF Digits(t) THEN (IF ~IsNat(t) \/ Len(LStrip(t, {"0"})) > 9 THEN None ELSE <<"in", NatOf(t)>>)
    ELSE LET x == ParseDate(t) IN IF x = NoDate THEN None ELSE <<"at", x.d, x.s>>

(* ---- the object ----------------------------------------------------------*)
Make(c, e) ==
    LET s == StatusOf(e.status, c)
        h == Typed(e.headers, e.mimetype, e.ctype, c.dm, c.cs)
    IN [c |-> c, cls |-> e.cls, code |-> s.code, status |-> s.status, body |-> e.body,
        h |-> IF e.body # "" /\ c.auto THEN H!SetField(h, "Content-Length", NatText(RS!BLen(c.cs, e.body))) ELSE h]
NoStatus == [s |-> "none", n |-> 0, t |-> ""]
InitState(c) == Make(c, [cls |-> "Full", status |-> NoStatus, headers |-> <<>>, mimetype |-> None, ctype |-> None, body |-> ""])
InitRet(c) == Done

Put(st, name, v) == IF H!Clean(v) THEN R([st EXCEPT !.h = H!SetField(@, name, v)], Done) ELSE R(st, Exc("ValueError"))
\* the locations generated here are plain and absolute; the last one counts
Located(h) == LET all == H!GetList(h, "content-location") IN IF all = <<>> THEN h ELSE H!SetField(h, "Content-Location", all[Len(all)])
Wire(st) == RS!WireHeaders([h |-> Located(st.h), status |-> st.code, auto |-> st.c.auto, kind |-> "list", cs |-> st.c.cs, items |-> <<RS!Chunk(st.body)>>])
Sent(st, method) == IF RS!NoBody(st.code, method) THEN "" ELSE st.body
\* a new response made from what a client gets
Anew(st, cls, dm, cs) == [st EXCEPT !.cls = cls, !.h = Typed(Wire(st), None, None, dm, cs), !.body = Sent(st, "GET")]
EntityLeft(h, allowed) == SelectSeq(h, LAMBDA f : Lower(f[1]) \notin RS!EntityHeaders \/ \E i \in 1..Len(allowed) : Lower(allowed[i]) = Lower(f[1]))
HopByHop == {"connection", "keep-alive", "proxy-authenticate", "proxy-authorization", "te", "trailer", "transfer-encoding", "upgrade"}
HopsLeft(h) == SelectSeq(h, LAMBDA f : Lower(f[1]) \notin HopByHop)

Step(st, e) ==
    CASE e.op = "make" -> R(Make(st.c, e), Done)
      [] e.op = "code" -> LET s == ByNumber(e.n) IN R([st EXCEPT !.code = s.code, !.status = s.status], Done)
      [] e.op = "status" -> LET s == ByText(e.t) IN R([st EXCEPT !.code = s.code, !.status = s.status], Done)
      [] e.op = "mimetype" -> Put(st, "Content-Type", FullType(e.v, st.c.cs))
      [] e.op = "text" -> Put(st, NameOf(e.p), e.v)
      [] e.op = "length" -> Put(st, "Content-Length", IntText(e.n))
      [] e.op = "date" -> Put(st, NameOf(e.p), HttpDate(e.x))
      [] e.op = "retry_in" -> Put(st, "Retry-After", NatText(e.n))
      [] e.op = "retry_at" -> Put(st, "Retry-After", HttpDate(e.x))
      [] e.op = "retry_text" -> Put(st, "Retry-After", e.v)
      [] e.op = "retry_none" -> R([st EXCEPT !.h = H!Without(@, "retry-after")], Done)
      [] e.op = "del" -> R([st EXCEPT !.h = H!Without(@, NameOf(e.p))], Done)
      [] e.op = "raw" -> Put(st, e.name, e.v)
      [] e.op = "add" -> IF H!Clean(e.v) THEN R([st EXCEPT !.h = Append(@, <<e.name, e.v>>)], Done) ELSE R(st, Exc("ValueError"))
      [] e.op = "data" -> R([st EXCEPT !.body = e.v, !.h = IF st.c.auto THEN H!SetField(@, "Content-Length", NatText(RS!BLen(st.c.cs, e.v))) ELSE @], Done)
      [] e.op = "write" -> R([st EXCEPT !.body = @ \o e.v, !.h = H!Without(@, "content-length")], Done)
      [] e.op = "entity" -> R([st EXCEPT !.h = EntityLeft(@, e.allowed)], Done)
      [] e.op = "hops" -> R([st EXCEPT !.h = HopsLeft(@)], Done)
      [] e.op = "kinds" -> R(st, Val(<<Lower(e.name) \in RS!EntityHeaders, Lower(e.name) \in HopByHop>>))
      [] e.op = "force" -> R([st EXCEPT !.cls = e.cls], Val(TRUE))
      [] e.op = "anew" -> R(Anew(st, e.cls, st.c.dm, st.c.cs), Done)
      [] e.op = "forceapp" -> IF e.env THEN R(Anew(st, e.cls, "text/plain", "utf-8"), Done) ELSE R(st, Exc("TypeError"))
      [] e.op = "repr" -> R(st, Val("<" \o st.cls \o " " \o NatText(RS!BLen(st.c.cs, st.body)) \o " bytes [" \o st.status \o "]>"))
      [] e.op = "send" -> R(st, Val([status |-> st.status, headers |-> Wire(st), body |-> Sent(st, e.method)]))

Obs(st) ==
    [code |-> st.code, status |-> st.status, headers |-> st.h,
     props |-> IF st.cls = "Base" THEN <<>>
               ELSE << [i \in 1..Len(TextProps) |-> Field(st.h, TextProps[i][2])],
                       [i \in 1..Len(DateProps) |-> ReadDate(Field(st.h, DateProps[i][2]))],
                       ReadType(Field(st.h, "content-type")), ReadLen(Field(st.h, "content-length")), ReadRetry(Field(st.h, "retry-after")) >>]

\* C28
Agree(st) == LET w == FirstWord(st.status) IN IsPyInt(w) /\ PyInt(w) = st.code
StateInv(st) == Agree(st)
Others(h, name) == H!Without(h, name)
Kept(st, r, name) == Others(st.h, name) = Others(r.st.h, name)
OneField(r, name) == Len(H!GetList(r.st.h, name)) <= 1
StepInv(st, e, r) ==
    /\ r.ret.k = "exc" => r.st = st
    \* a property reads what was set, from the one header of its name; the others stay
    /\ e.op \in {"text", "date", "del"} /\ r.ret.k = "val" => Kept(st, r, NameOf(e.p)) /\ OneField(r, NameOf(e.p))
    /\ e.op = "text" /\ r.ret.k = "val" => Field(r.st.h, NameOf(e.p)) = e.v
    /\ e.op = "del" => ~H!Has(r.st.h, NameOf(e.p))
    /\ e.op = "date" => ParseDate(Field(r.st.h, NameOf(e.p))) = e.x
    /\ e.op = "length" => ReadLen(Field(r.st.h, "content-length")) = e.n /\ Kept(st, r, "content-length")
    /\ e.op = "retry_in" => ReadRetry(Field(r.st.h, "retry-after")) = <<"in", e.n>>
    /\ e.op = "retry_at" => ReadRetry(Field(r.st.h, "retry-after")) = <<"at", e.x.d, e.x.s>>
    /\ e.op = "mimetype" /\ r.ret.k = "val" =>
          LET t == Field(r.st.h, "content-type") IN
          /\ ~Contains(e.v, ";") => ReadType(t) = (IF Strip(e.v, White) = "" /\ t = "" THEN None ELSE Strip(e.v, White))
          /\ IsText(e.v) <=> EndsWith(t, "; charset=" \o st.c.cs) /\ t # e.v
    /\ e.op = "entity" => /\ \A i \in 1..Len(st.h) : Lower(st.h[i][1]) \notin RS!EntityHeaders => \E j \in 1..Len(r.st.h) : r.st.h[j] = st.h[i]
                          /\ e.allowed = <<>> => \A j \in 1..Len(r.st.h) : Lower(r.st.h[j][1]) \notin RS!EntityHeaders
    /\ e.op = "hops" => \A j \in 1..Len(r.st.h) : Lower(r.st.h[j][1]) \notin HopByHop
    /\ e.op \in {"anew", "forceapp"} /\ r.ret.k = "val" => r.st.status = st.status /\ Agree(r.st)
=============================================================================
