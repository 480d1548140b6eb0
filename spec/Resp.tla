-------------------------------- MODULE Resp --------------------------------
(***************************************************************************)
(* One response: its body (buffered or streamed from a source that may     *)
(* fail), its headers, its cleanup callbacks, and sending it to a client   *)
(* that may stop reading at any point.                                     *)
(***************************************************************************)
EXTENDS HttpText, Utf8
H == INSTANCE Headers

Chunk(v) == [t |-> "b", v |-> v]
BLen(cs, v) == IF cs = "utf-8" THEN Utf8Len(v) ELSE Len(v)
RECURSIVE SumLen(_, _)
SumLen(cs, q) == IF q = <<>> THEN 0 ELSE BLen(cs, Head(q).v) + SumLen(cs, Tail(q))
TextOfChunks(q) == Join([i \in 1..Len(q) |-> q[i].v], "")

EntityHeaders == {"allow", "content-encoding", "content-language", "content-length",
                  "content-location", "content-md5", "content-range", "content-type",
                  "expires", "last-modified"}
Kept304 == {"expires", "content-location"}
Strip304(h) == SelectSeq(h, LAMBDA f : Lower(f[1]) \notin (EntityHeaders \ Kept304))

\* Body kinds: "list", "tuple" (buffered); "gen" (one pass), "iterable"
\* (starts again on every iteration): streamed from a source with its own close.
\* c: [kind, items, fault, status, cs, auto, implicit, passthrough, headers]
InitState(c) ==
    LET isText == c.kind \in {"str", "bytes"}
        cs == c.cs
        base == c.headers
        h1 == IF H!Has(base, "content-type") THEN base
              ELSE H!SetField(base, "Content-Type", "text/plain; charset=" \o cs)
        total == SumLen(cs, c.items)
        h2 == IF isText /\ c.auto THEN H!SetField(h1, "Content-Length", NatText(total)) ELSE h1
    IN [h |-> h2,
        kind |-> IF isText THEN "list" ELSE c.kind,
        items |-> IF isText THEN <<Chunk(TextOfChunks(c.items))>> ELSE c.items,
        fault |-> IF c.kind \in {"gen", "iterable"} THEN c.fault ELSE 0,
        status |-> c.status, cs |-> cs, auto |-> c.auto, implicit |-> c.implicit,
        passthrough |-> c.passthrough,
        cbs |-> <<>>,                \* run counts of the registered callbacks
        src |-> IF c.kind \in {"gen", "iterable"} THEN 0 ELSE -1,   \* closes of the source
        srcpend |-> FALSE,           \* source's close became a callback
        wclosed |-> FALSE, sent |-> FALSE]
InitRet(c) == Done

IsSeq(s) == s.kind \in {"list", "tuple"}
Buffered(s) == [i \in 1..Len(s.items) |-> Chunk(s.items[i].v)]
\* consume the whole source; on a fault the one-pass source stays at the fault
Consumed(s) ==
    IF s.fault > 0
    THEN [ok |-> FALSE, st |-> IF s.kind = "gen" THEN [s EXCEPT !.items = SubSeq(@, s.fault, Len(@)), !.fault = 1] ELSE s]
    ELSE [ok |-> TRUE, st |-> [s EXCEPT !.items = Buffered(s), !.kind = "list", !.srcpend = TRUE]]
MakeSeq(s) == IF IsSeq(s) THEN [ok |-> TRUE, st |-> s] ELSE Consumed(s)
\* implicit conversion: refused in passthrough mode or when switched off
MayConvert(s) == IsSeq(s) \/ (~s.passthrough /\ s.implicit)

NoBody(status, method) == method = "HEAD" \/ (status >= 100 /\ status < 200) \/ status \in {204, 304}
WireHeaders(s) ==
    LET h == s.h
        cl == H!Has(h, "content-length")
    IN IF (s.status >= 100 /\ s.status < 200) \/ s.status = 204 THEN H!SetField(h, "Content-Length", "0")
       ELSE IF s.status = 304 THEN Strip304(h)
       ELSE IF s.auto /\ IsSeq(s) /\ ~cl THEN H!SetField(h, "Content-Length", NatText(SumLen(s.cs, s.items)))
       ELSE h

RunAll(s) == [s EXCEPT !.cbs = [i \in 1..Len(@) |-> @[i] + 1],
                       !.src = IF @ >= 0 /\ (s.srcpend \/ ~IsSeq(s)) THEN @ + 1 ELSE @]

\* what the client gets when it takes at most n chunks (n < 0: all)
Deliver(s, method, n) ==
    IF NoBody(s.status, method) THEN [got |-> <<>>, raised |-> FALSE]
    ELSE LET limit == IF n < 0 \/ n > Len(s.items) THEN Len(s.items) ELSE n
             wants == n < 0 \/ n > Len(s.items)     \* keeps asking beyond the last chunk
         IN IF s.fault > 0 /\ (wants \/ limit >= s.fault)
            THEN [got |-> SubSeq(s.items, 1, s.fault - 1), raised |-> TRUE]
            ELSE [got |-> SubSeq(s.items, 1, limit), raised |-> FALSE]

Send(s, e) ==
    LET d == Deliver(s, e.method, e.take)
        s2 == [RunAll(s) EXCEPT !.sent = TRUE]
    IN R(s2, Val([status |-> s.status, headers |-> WireHeaders(s),
                  body |-> TextOfChunks(d.got), nbytes |-> SumLen(s.cs, d.got),
                  nchunks |-> Len(d.got), raised |-> d.raised]))

Step(s, e) ==
    CASE e.op = "on_close" -> R([s EXCEPT !.cbs = Append(@, 0)], Done)
      [] e.op = "set_data" ->
            R([s EXCEPT !.items = <<Chunk(e.v.v)>>, !.kind = "list", !.fault = 0,
                        !.h = IF s.auto THEN H!SetField(@, "Content-Length", NatText(BLen(s.cs, e.v.v))) ELSE @], Done)
      [] e.op = "write" ->
            IF s.wclosed THEN R(s, Exc("ValueError"))
            ELSE IF ~MayConvert(s) THEN R(s, Exc("RuntimeError"))
            ELSE LET m == MakeSeq(s)
                 IN IF ~m.ok THEN R(m.st, Exc("Boom"))
                    ELSE R([m.st EXCEPT !.items = Append(@, e.v), !.kind = "list", !.h = H!Without(@, "content-length")], Done)
      [] e.op = "wclose" -> R([s EXCEPT !.wclosed = TRUE], Done)
      [] e.op = "writelines" ->      \* one write after the other, up to the first that fails
            IF e.vs = <<>> THEN R(s, Done)
            ELSE IF s.wclosed THEN R(s, Exc("ValueError"))
            ELSE IF ~MayConvert(s) THEN R(s, Exc("RuntimeError"))
            ELSE LET m == MakeSeq(s)
                 IN IF ~m.ok THEN R(m.st, Exc("Boom"))
                    ELSE R([m.st EXCEPT !.items = @ \o e.vs, !.kind = "list", !.h = H!Without(@, "content-length")], Done)
      [] e.op = "flush" -> R(s, IF s.wclosed THEN Exc("ValueError") ELSE Done)
      [] e.op = "isatty" -> R(s, IF s.wclosed THEN Exc("ValueError") ELSE Val(FALSE))
      [] e.op = "wencoding" -> R(s, Val(s.cs))
      [] e.op = "make_sequence" ->
            LET m == MakeSeq(s) IN IF m.ok THEN R(m.st, Done) ELSE R(m.st, Exc("Boom"))
      [] e.op = "freeze" ->
            LET m == MakeSeq(s)
                t == [m.st EXCEPT !.items = Buffered(m.st), !.kind = "list"]
            IN IF ~m.ok THEN R(m.st, Exc("Boom"))
               ELSE R([t EXCEPT !.h = H!SetField(@, "Content-Length", NatText(SumLen(s.cs, t.items)))], Done)
      [] e.op \in {"get_data", "get_text"} ->
            IF ~MayConvert(s) THEN R(s, Exc("RuntimeError"))
            ELSE LET m == MakeSeq(s)
                 IN IF m.ok THEN R(m.st, Val(TextOfChunks(m.st.items))) ELSE R(m.st, Exc("Boom"))
      [] e.op = "calc" ->
            IF ~MayConvert(s) THEN R(s, Val(None))
            ELSE LET m == MakeSeq(s)
                 IN IF m.ok THEN R(m.st, Val(SumLen(s.cs, m.st.items))) ELSE R(m.st, Exc("Boom"))
      [] e.op = "status" -> R([s EXCEPT !.status = e.n], Done)
      [] e.op = "set_header" -> R([s EXCEPT !.h = H!SetField(@, e.key, e.v)], Done)
      [] e.op = "is_sequence" -> R(s, Val(IsSeq(s)))
      [] e.op = "is_streamed" -> R(s, Val(~IsSeq(s)))
      [] e.op = "with" -> R([RunAll(s) EXCEPT !.sent = TRUE], Done)
      [] e.op = "send" -> Send(s, e)

Obs(s) == [headers |-> s.h, status |-> s.status, cbs |-> s.cbs, src |-> s.src, isseq |-> IsSeq(s)]

\* ---- properties
\* C07: nothing runs before the response is finished, everything exactly once after
Once(s) == /\ \A i \in 1..Len(s.cbs) : s.cbs[i] = IF s.sent THEN 1 ELSE 0
           /\ s.src >= 0 => s.src = (IF s.sent THEN 1 ELSE 0)
StateInv(s) == Once(s)
\* C08: a length announced without being set by the caller is the number of bytes
UserLength(h) == LET v == H!GetList(h, "content-length") IN v # <<>> /\ v[1] = "777"
StepInv(s, e, r) ==
    e.op = "send" /\ r.ret.k = "val" =>
        LET v == r.ret.v
            cl == H!GetList(v.headers, "content-length")
        IN /\ NoBody(s.status, e.method) => v.body = "" /\ v.nbytes = 0
           /\ s.status = 304 => \A i \in 1..Len(v.headers) : Lower(v.headers[i][1]) \notin (EntityHeaders \ Kept304)
           /\ (s.auto /\ cl # <<>> /\ ~UserLength(v.headers) /\ ~NoBody(s.status, e.method) /\ ~v.raised /\ e.take < 0)
                 => cl[1] = NatText(v.nbytes)
           /\ (e.take < 0 /\ ~v.raised /\ ~NoBody(s.status, e.method)) => v.body = TextOfChunks(s.items)
=============================================================================
