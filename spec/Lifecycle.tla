----------------------------- MODULE Lifecycle -----------------------------
(***************************************************************************)
(* One request through an application: a stack of middleware, a handler    *)
(* that registers cleanup callbacks on the request and on its response,    *)
(* optionally fails, optionally is replaced by an error handler, and a     *)
(* body that may fail while it is being streamed to a client that may      *)
(* disconnect after any chunk.  The client's steps are "next" (ask for a   *)
(* chunk) and "close" (the server's obligatory close at the end).          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Str

\* c: [mw, reqcbs, respcbs, kind, n, fault, handler, errh, errcbs, method, status]
\*  handler: "ok" | "raise";  errh: an error handler is registered
InitState(c) ==
    [c |-> c, phase |-> "called",
     enters |-> [i \in 1..c.mw |-> c.mw + 1 - i],      \* last added is outermost
     exits |-> <<>>,
     handled |-> 0, errhandled |-> 0, started |-> 0, pos |-> 0,
     req |-> -1, resp |-> -1, src |-> -1, err |-> -1]  \* -1: never registered
InitRet(c) == Done

Replaced(c) == c.handler = "raise" /\ c.errh
Failed(c) == c.handler = "raise" /\ ~c.errh
Empty(c) == c.method = "HEAD" \/ (c.status >= 100 /\ c.status < 200) \/ c.status \in {204, 304}
\* the chunks this exchange has, and the failing one
N(c) == IF Replaced(c) THEN (IF c.method = "HEAD" THEN 0 ELSE 1) ELSE IF Empty(c) THEN 0 ELSE c.n
Fault(c) == IF Replaced(c) \/ Empty(c) THEN 0 ELSE c.fault

Inc(x) == IF x >= 0 THEN x + 1 ELSE x
Cleanup(s) == [s EXCEPT !.req = Inc(@), !.resp = Inc(@), !.src = Inc(@), !.err = Inc(@), !.phase = "over"]

\* the handler (or the error handler) runs and the response is started
Open(s) ==
    LET c == s.c
        a == [s EXCEPT !.handled = 1, !.req = IF c.reqcbs THEN 0 ELSE -1]
    IN IF Failed(c) THEN a
       ELSE IF Replaced(c) THEN [a EXCEPT !.errhandled = 1, !.started = 500, !.err = IF c.errcbs THEN 0 ELSE -1, !.phase = "stream"]
       ELSE [a EXCEPT !.started = c.status, !.resp = IF c.respcbs THEN 0 ELSE -1,
                      !.src = IF c.kind = "stream" THEN 0 ELSE -1, !.phase = "stream"]

Deliver(s) ==
    LET c == s.c
    IN IF Fault(c) > 0 /\ s.pos + 1 = Fault(c) THEN R(Cleanup(s), Exc("Boom"))
       ELSE IF s.pos < N(c) THEN R([s EXCEPT !.pos = @ + 1], Val("chunk"))
       ELSE R(Cleanup(s), Val("end"))

Step(s, e) ==
    CASE e.op = "next" ->
           IF s.phase = "called"
           THEN LET o == Open(s) IN IF Failed(s.c) THEN R(Cleanup(o), Exc("Boom")) ELSE Deliver(o)
           ELSE IF s.phase = "stream" THEN Deliver(s)
           ELSE R(s, Val("end"))
      [] e.op = "close" ->
           LET t == IF s.phase = "stream" THEN Cleanup(s) ELSE s
           IN R([t EXCEPT !.phase = "closed", !.exits = [i \in 1..s.c.mw |-> i]], Done)

Obs(s) == [enters |-> s.enters, exits |-> s.exits, handled |-> s.handled, errhandled |-> s.errhandled,
           started |-> s.started, pos |-> s.pos, req |-> s.req, resp |-> s.resp, src |-> s.src, err |-> s.err]

\* ---- C07
Counts(s) == {s.req, s.resp, s.src, s.err}
StateInv(s) ==
    /\ s.phase \in {"called", "stream"} => \A x \in Counts(s) : x <= 0    \* not while the body is delivered
    /\ s.phase \in {"over", "closed"} => \A x \in Counts(s) : x \in {-1, 1} \* exactly once afterwards
    /\ s.phase = "closed" => Len(s.exits) = Len(s.enters)
    /\ s.started = s.c.status => s.errhandled = 0 \/ s.c.status = 500
StepInv(s, e, r) == r.ret.k = "val" /\ r.ret.v = "chunk" => r.st.phase = "stream"
=============================================================================
