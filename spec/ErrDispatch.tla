----------------------------- MODULE ErrDispatch -----------------------------
(***************************************************************************)
(* An application answering requests: routing, dispatch to a view, and for *)
(* any exception on the way the choice of an error handler by inheritance  *)
(* and content negotiation.                                                *)
(*                                                                         *)
(* Configuration c:                                                        *)
(*   classes   exception classes [name, bases] besides the built-in ones   *)
(*   handlers  error handlers [cls, rep, label, then] in order             *)
(*             then: "answer", or the class of an exception it raises      *)
(*   views     [name, method, rep, label, does]                            *)
(*             does: "answer", "json", "nothing" or an exception class     *)
(*   redirects whether the default handler for redirects is installed      *)
(***************************************************************************)
EXTENDS Negotiate
D == INSTANCE Dispatch
IndexFirst(q, x) == MinOf({i \in 1..Len(q) : q[i] = x})

BuiltinBases ==
    [object |-> <<>>, BaseException |-> <<"object">>, Exception |-> <<"BaseException">>,
     LookupError |-> <<"Exception">>, KeyError |-> <<"LookupError">>,
     HTTPException |-> <<"Exception">>, NotFound |-> <<"HTTPException">>, BadRequest |-> <<"HTTPException">>,
     MethodNotAllowed |-> <<"HTTPException">>, NotImplemented |-> <<"HTTPException">>,
     NotAcceptable |-> <<"HTTPException">>, RoutingException |-> <<"Exception">>,
     BuildError |-> <<"RoutingException", "LookupError">>, AssertionError |-> <<"Exception">>,
     RequestRedirect |-> <<"HTTPException", "RoutingException">>]
Codes == [NotFound |-> 404, BadRequest |-> 400, MethodNotAllowed |-> 405, NotImplemented |-> 501,
          NotAcceptable |-> 406, RequestRedirect |-> 301]

Bases(c, x) ==
    IF x \in DOMAIN BuiltinBases THEN BuiltinBases[x]
    ELSE LET i == CHOOSE i \in 1..Len(c.classes) : c.classes[i].name = x IN c.classes[i].bases

\* The order in which Python looks at the ancestors of a class (C3)
InTail(x, q) == \E i \in 2..Len(q) : q[i] = x
Drop(q, x) == IF q # <<>> /\ q[1] = x THEN Tail(q) ELSE q
RECURSIVE Merge(_)
Merge(lists) ==
    LET ls == SelectSeq(lists, LAMBDA q : q # <<>>)
    IN IF ls = <<>> THEN <<>>
       ELSE LET i == MinOf({i \in 1..Len(ls) : \A j \in 1..Len(ls) : ~InTail(ls[i][1], ls[j])})
                x == ls[i][1]
            IN <<x>> \o Merge([j \in 1..Len(ls) |-> Drop(ls[j], x)])
RECURSIVE Mro(_, _)
Mro(c, x) == LET bs == Bases(c, x) IN <<x>> \o Merge([i \in 1..Len(bs) |-> Mro(c, bs[i])] \o <<bs>>)
IsA(c, x, y) == \E i \in 1..Len(Mro(c, x)) : Mro(c, x)[i] = y

PlainRep == [ct |-> [v |-> None, qs |-> 1000], lang |-> [v |-> None, qs |-> 1000], cs |-> [v |-> None, qs |-> 1000], qs |-> 1000]
Handlers(c) ==
    (IF c.redirects THEN <<[cls |-> "RequestRedirect", rep |-> PlainRep, label |-> "redirect", then |-> "answer"]>> ELSE <<>>) \o c.handlers

\* position of the handler for class x, 0 if none
HandlerAt(c, x, e) ==
    LET hs == Handlers(c)
        Of(cls) == SelectSeq([i \in 1..Len(hs) |-> [i |-> i, cls |-> hs[i].cls, rep |-> hs[i].rep]], LAMBDA h : h.cls = cls)
        Best(cls) == LET q == Of(cls)
                         k == Select([j \in 1..Len(q) |-> q[j].rep], e.accept, e.lang, e.cs)
                     IN IF k = 0 THEN 0 ELSE q[k].i
        mro == Mro(c, x)
        S == {i \in 1..Len(mro) : Of(mro[i]) # <<>> /\ Best(mro[i]) # 0}
    IN IF S = {} THEN 0 ELSE Best(mro[MinOf(S)])

\* what an exception of class x raised while answering request e leads to
Raise(c, x, e) ==
    IF ~IsA(c, x, "Exception") THEN Exc(x)
    ELSE LET h == HandlerAt(c, x, e)
         IN IF h = 0 THEN Exc(x)
            ELSE IF Handlers(c)[h].then # "answer" THEN Exc(Handlers(c)[h].then)
            ELSE IF Handlers(c)[h].label = "redirect" THEN Val(<<"redirect", "301">>)
            ELSE Val(<<"error handler " \o Handlers(c)[h].label, x>>)

Bindings(c) == [i \in 1..Len(c.views) |-> [name |-> c.views[i].name, method |-> c.views[i].method, rep |-> c.views[i].rep, label |-> c.views[i].label]]
ViewOf(c, label) == c.views[CHOOSE i \in 1..Len(c.views) : c.views[i].label = label]
\* routes: /<name> for the names n1..n3, /branch/ for n1
Request(c, e) ==
    IF e.path = "branch" THEN Raise(c, "RequestRedirect", e)
    ELSE IF e.path \notin {"n1", "n2", "n3"} THEN Raise(c, "NotFound", e)
    ELSE LET l == D!Lookup(Bindings(c), e.path, e.method, e.accept, e.lang, e.cs)
         IN IF l.k = "exc" THEN Raise(c, l.v, e)
            ELSE LET v == ViewOf(c, l.v)
                 IN IF v.does = "answer" THEN Val(<<"view " \o v.label, "200">>)
                    ELSE IF v.does = "json" THEN Val(<<"json " \o v.label, "200">>)
                    ELSE IF v.does = "nothing" THEN Val(<<"", "204">>)
                    ELSE Raise(c, v.does, e)

InitState(c) == c
InitRet(c) == Done
Obs(c) == [n |-> Len(c.views)]
StateInv(c) == TRUE
Step(c, e) == R(c, Request(c, e))
StepInv(c, e, r) ==
    /\ r.st = c
    \* C06: an answer of an error handler comes from a handler for an ancestor
    \* of the exception, and no handler for a closer ancestor is acceptable
    /\ LET hs == Handlers(c)
           Out(i) == LET g == GradesFor(<<hs[i].rep>>, e.accept, e.lang, e.cs) IN g[1].out
       IN \A i \in 1..Len(hs) :
            (r.ret.k = "val" /\ r.ret.v[1] = "error handler " \o hs[i].label) =>
                /\ IsA(c, r.ret.v[2], hs[i].cls)
                /\ ~Out(i)
                /\ \A j \in 1..Len(hs) : ~Out(j) /\ IsA(c, r.ret.v[2], hs[j].cls) /\ hs[j].cls # hs[i].cls =>
                        LET m == Mro(c, r.ret.v[2]) IN IndexFirst(m, hs[i].cls) < IndexFirst(m, hs[j].cls)
    \* what propagates has no acceptable handler, or comes from a handler
    /\ r.ret.k = "exc" /\ (\A i \in 1..Len(c.handlers) : c.handlers[i].then = "answer") /\ IsA(c, r.ret.v, "Exception") =>
            HandlerAt(c, r.ret.v, e) = 0
=============================================================================
