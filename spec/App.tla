-------------------------------- MODULE App --------------------------------
(***************************************************************************)
(* Applications.  A builder collects routes, converters, views, error      *)
(* handlers, middleware, mixins and configuration; calling it makes an     *)
(* application of what it holds at that moment, for the address the        *)
(* application is reached at.  An application answers requests (through    *)
(* its middleware, routing, dispatch, error handling) and makes links.     *)
(* (verktyg/application.py)                                                *)
(*                                                                         *)
(* Configuration c: [classes, redirects, mixins, pre]                      *)
(*   classes    exception classes, as in ErrDispatch                       *)
(*   redirects  whether redirects of the routing are answered by default   *)
(*   mixins     whether the default request mixins are used                *)
(*   pre        events that have happened already                          *)
(***************************************************************************)
EXTENDS Negotiate
RT == INSTANCE Routing
D == INSTANCE Dispatch
E == INSTANCE ErrDispatch
UF == INSTANCE UrlForms

\* an application without a known address: redirects are relative to the
\* root of the request; "@" stands for the server of the request
Nowhere == "@"
BindOf(root) ==
    IF root.host = "" THEN [server |-> Nowhere, sub |-> "", script |-> "/", scheme |-> "http"]
    ELSE [server |-> Lower(root.host), sub |-> "", script |-> root.path, scheme |-> root.scheme]
RtCfg == [strict |-> TRUE, rdef |-> TRUE, hostm |-> FALSE, dsub |-> "", cs |-> "utf-8"]

\* converters of the application: names for (or instead of) built-in ones
ConvName(convs, n) == LET S == {i \in 1..Len(convs) : convs[i][1] = n} IN IF S = {} THEN n ELSE convs[MaxOf(S)][2]
RECURSIVE Translate(_, _)
Translate(s, convs) ==
    LET i == Find(s, "<")
        t == From(s, i + 1)
        ends == {k \in 1..Len(t) : Ch(t, k) \in {":", "(", ">"}}
        j == MinOf(ends)
        named == Ch(t, j) # ">"
    IN IF i = 0 \/ ends = {} THEN s
       ELSE UpTo(s, i) \o (IF named THEN ConvName(convs, UpTo(t, j - 1)) ELSE UpTo(t, j - 1)) \o Ch(t, j) \o Translate(From(t, j + 1), convs)
Translated(def, convs) == [def EXCEPT !.r = Translate(@, convs)]

\* mixins: what each of them provides; the first one added provides a name
\* that several have, and none replaces what the base class has
Provides == [M1 |-> {"a", "b"}, M2 |-> {"b", "c"}, M3 |-> {"a", "c", "config", "environ"}]
AttrOf(ms, n) ==
    LET S == {i \in 1..Len(ms) : n \in Provides[ms[i]]} IN IF S = {} THEN None ELSE ms[MinOf(S)] \o "." \o n

----------------------------------------------------------------------------
NewBuilder(c) ==
    [routes |-> <<>>, convs |-> <<>>, views |-> <<>>, handlers |-> <<>>, mids |-> <<>>,
     amix |-> <<>>, rmix |-> <<>>, conf |-> <<>>]

Plain(route, ep) ==
    [r |-> route, ep |-> ep, defs |-> <<>>, sub |-> None, host |-> "", strict |-> "-", bo |-> FALSE, alias |-> FALSE,
     redir |-> None, wrap |-> <<>>]
Exposed(b, e) ==
    LET name == IF e.name = None THEN e.fn ELSE e.name
        new == [i \in 1..Len(e.methods) |-> [name |-> name, method |-> e.methods[i], rep |-> e.rep, label |-> e.label, does |-> e.does]]
    IN [b EXCEPT !.views = @ \o new, !.routes = IF e.route = None THEN @ ELSE Append(@, Plain(e.route, name))]
AddOnce(q, x) == IF \E i \in 1..Len(q) : q[i] = x THEN q ELSE Append(q, x)
LastValue(conf, k) == LET S == {i \in 1..Len(conf) : conf[i][1] = k} IN IF S = {} THEN None ELSE conf[MaxOf(S)][2]
ConfSet(conf) == {<<k, LastValue(conf, k)>> : k \in {conf[i][1] : i \in 1..Len(conf)}}

Make(s, root) ==
    LET b == s.b
        defs == [i \in 1..Len(b.routes) |-> Translated(b.routes[i], b.convs)]
        bad == {i \in 1..Len(defs) : RT!Compile(RtCfg, defs[i]).err # ""}
    IN IF bad # {} THEN R(s, Exc(RT!Compile(RtCfg, defs[MinOf(bad)]).err))
       ELSE R([s EXCEPT !.apps = Append(@,
                [rt |-> RT!InitState([cfg |-> RtCfg, bind |-> BindOf(root), routes |-> defs]),
                 views |-> b.views, handlers |-> b.handlers, mids |-> b.mids, amix |-> b.amix, rmix |-> b.rmix,
                 conf |-> ConfSet(b.conf), debug |-> FALSE, classes |-> s.c.classes, redirects |-> s.c.redirects,
                 mixins |-> s.c.mixins, root |-> root])], Done)

----------------------------------------------------------------------------
(* Answering                                                               *)
NoSeen == <<>>
Answer(status, loc, body) == [status |-> status, loc |-> loc, body |-> body, out |-> <<>>, seen |-> NoSeen, closed |-> <<>>]

ClassOf(x) == IF x = "LookupError" THEN "BuildError" ELSE x
CodeText == [NotFound |-> "404", BadRequest |-> "400", MethodNotAllowed |-> "405", NotImplemented |-> "501",
             NotAcceptable |-> "406", RequestRedirect |-> "301"]
RECURSIVE CodeOf(_, _, _)
CodeOf(a, x, i) ==
    LET m == E!Mro(a, x) IN
    IF i > Len(m) THEN "500" ELSE IF m[i] \in DOMAIN CodeText THEN CodeText[m[i]] ELSE CodeOf(a, x, i + 1)
\* the address a redirect of the routing leads to, as the client sees it
Here(e) == "http://" \o e.host \o e.script \o "/"
Location(url, e) ==
    LET marker == "http://" \o Nowhere \o "/"
    IN UF!IriToUri(IF StartsWith(url, marker) THEN Here(e) \o From(url, Len(marker) + 1) ELSE url).v

Failed(a, x, url, e, seen) ==
    LET h == E!HandlerAt(a, x, e)
        hs == E!Handlers(a)
        ran == IF seen = NoSeen THEN <<>> ELSE <<"request">>
    IN IF ~E!IsA(a, x, "Exception") \/ h = 0 THEN Exc(x)
       ELSE IF hs[h].then # "answer" THEN Exc(hs[h].then)
       ELSE IF hs[h].label = "redirect" THEN Val([Answer("301", Location(url, e), "redirect") EXCEPT !.seen = seen, !.closed = ran])
       ELSE Val([Answer(CodeOf(a, x, 1), "", hs[h].label \o " " \o x) EXCEPT !.seen = seen, !.closed = <<"error">> \o ran])

Binding(v) == [name |-> v.name, method |-> v.method, rep |-> v.rep, label |-> v.label]
Indent == "\n    "
JsonText(a, label) ==
    IF a.debug THEN "[" \o Indent \o "\"" \o label \o "\"," \o Indent \o "1\n]" ELSE "[\"" \o label \o "\",1]"
\* what JSON views return: a value of every kind, also those that are false
JsonOf(a, does, label) ==
    CASE does = "json" -> JsonText(a, label)
      [] does = "object" -> IF a.debug THEN "{" \o Indent \o "\"" \o label \o "\": 1\n}" ELSE "{\"" \o label \o "\":1}"
      [] does = "zero" -> "0"
      [] does = "false" -> "false"
      [] does = "noText" -> "\"\""
      [] does = "noList" -> "[]"
      [] does = "noObject" -> "{}"
Empty(e, body) == IF e.method = "HEAD" THEN "" ELSE body
Inner(a, e, path, trail) ==
    LET m == RT!Match(a.rt, a.rt.bind, path, [t |-> "s", s |-> e.q, pairs |-> <<>>])
    IN IF m.k = "exc" THEN Failed(a, ClassOf(m.v), "", e, NoSeen)
       ELSE IF m.k = "redirect" THEN Failed(a, "RequestRedirect", m.v, e, NoSeen)
       ELSE LET l == D!Lookup([i \in 1..Len(a.views) |-> Binding(a.views[i])], m.v.ep, e.method, e.accept, e.lang, e.cs)
            IN IF l.k = "exc" THEN Failed(a, l.v, "", e, NoSeen)
               ELSE LET meth == IF \E i \in 1..Len(a.views) : a.views[i].name = m.v.ep /\ a.views[i].method = e.method THEN e.method ELSE "GET"
                        v == a.views[CHOOSE i \in 1..Len(a.views) : a.views[i].label = l.v]
                        seen == <<[label |-> v.label, vals |-> m.v.vals, trail |-> trail, ep |-> m.v.ep, method |-> meth,
                                   path |-> "/" \o LStrip(path, {"/"}), q |-> e.q, attrs |-> [n \in {"a", "b", "c"} |-> AttrOf(a.rmix, n)], etags |-> a.mixins,
                                   conf |-> [SET |-> a.conf]]>>
                    IN CASE v.does = "answer" ->
                              Val([Answer("200", "", Empty(e, "answer " \o v.label)) EXCEPT !.seen = seen, !.closed = <<"response", "request">>])
                         [] v.does = "stream" ->
                              Val([Answer("200", "", Empty(e, "stream " \o v.label)) EXCEPT !.seen = seen,
                                          !.closed = <<"iterable", "response", "request">>])
                         [] v.does \in {"json", "object", "zero", "false", "noText", "noList", "noObject"} ->
                              Val([Answer("200", "", Empty(e, JsonOf(a, v.does, v.label))) EXCEPT !.seen = seen, !.closed = <<"request">>])
                         [] v.does = "nothing" -> Val([Answer("204", "", "") EXCEPT !.seen = seen, !.closed = <<"request">>])
                         [] OTHER -> Failed(a, v.does, "", e, seen)

(* Middleware: the layer added last sees the request first.  A layer lets  *)
(* everything pass and leaves a mark on the request and on the answer      *)
(* ("tag"), answers DELETE requests itself ("block"), or shortens paths    *)
(* ("strip").                                                              *)
OldPath == "/old/"
RECURSIVE Through(_, _, _, _, _)
Through(a, e, i, path, trail) ==
    IF i = 0 THEN Inner(a, e, path, trail)
    ELSE LET m == a.mids[i] IN
         CASE m.does = "tag" ->
                LET r == Through(a, e, i - 1, path, Append(trail, m.label))
                IN IF r.k = "exc" THEN r ELSE [r EXCEPT !.v.out = Append(@, m.label)]
           [] m.does = "block" ->
                IF e.method = "DELETE" THEN Val(Answer("403", "", "blocked " \o m.label)) ELSE Through(a, e, i - 1, path, trail)
           [] m.does = "strip" ->
                Through(a, e, i - 1, IF StartsWith(path, OldPath) THEN From(path, Len(OldPath)) ELSE path, trail)
Request(a, e) == LET r == Through(a, e, Len(a.mids), e.path, <<>>) IN
                 IF r.k = "val" /\ e.method = "HEAD" THEN [r EXCEPT !.v.body = ""] ELSE r

\* ---- links
Link(a, e) == RT!Build(a.rt, a.rt.bind, e.ep, RT!PairMap(e.vals), <<>>, FALSE, TRUE)
\* the request a client makes for a link of the application
RequestFor(a, e, url) ==
    LET i == Find(url, "?")
        p == IF i = 0 THEN url ELSE UpTo(url, i - 1)
        script == RStrip(RT!Script(a.rt.bind), {"/"})
    IN [op |-> "request", app |-> e.app, method |-> e.method, path |-> RT!UnquoteUrl(From(p, Len(script) + 1), "utf-8"),
        q |-> IF i = 0 THEN "" ELSE From(url, i + 1), script |-> script, host |-> e.host,
        accept |-> None, lang |-> None, cs |-> None]

----------------------------------------------------------------------------
Step(s, e) ==
    CASE e.op = "route" -> R([s EXCEPT !.b.routes = Append(@, e.def)], Done)
      [] e.op = "expose" -> R([s EXCEPT !.b = Exposed(@, e)], Done)
      [] e.op = "handler" -> R([s EXCEPT !.b.handlers = Append(@, e.h)], Done)
      [] e.op = "mid" -> R([s EXCEPT !.b.mids = Append(@, [label |-> e.label, does |-> e.does])], Done)
      [] e.op = "amix" -> R([s EXCEPT !.b.amix = AddOnce(@, e.name)], Done)
      [] e.op = "rmix" -> R([s EXCEPT !.b.rmix = AddOnce(@, e.name)], Done)
      [] e.op = "conf" -> R([s EXCEPT !.b.conf = Append(@, <<e.key, e.v>>)], Done)
      [] e.op = "conv" -> R([s EXCEPT !.b.convs = Append(@, <<e.name, e.kind>>)], Done)
      [] e.op = "build" -> Make(s, e.root)
      [] e.op = "request" -> R(s, Request(s.apps[e.app], e))
      [] e.op = "link" -> R(s, Link(s.apps[e.app], e))
      [] e.op = "visit" ->
            LET a == s.apps[e.app]
                l == Link(a, e)
            IN IF l.k = "exc" THEN R(s, l)
               ELSE LET r == Request(a, RequestFor(a, e, l.v))
                    IN R(s, IF r.k = "exc" THEN r ELSE Val([url |-> l.v, got |-> r.v]))
      [] e.op = "debug" -> R([s EXCEPT !.apps[e.app].debug = e.on], Done)
      [] e.op = "setconf" -> R(s, Exc("TypeError"))
      [] e.op = "attr" -> LET v == AttrOf(s.apps[e.app].amix, e.name) IN R(s, IF v = None THEN Exc("AttributeError") ELSE Val(v))
RECURSIVE After(_, _)
After(s, es) == IF es = <<>> THEN s ELSE After(Step(s, es[1]).st, Tail(es))
InitState(c) == TLCEval(After([c |-> c, b |-> NewBuilder(c), apps |-> <<>>], c.pre))
InitRet(c) == Done
Obs(s) == [i \in 1..Len(s.apps) |-> [conf |-> [SET |-> s.apps[i].conf], debug |-> s.apps[i].debug]]

----------------------------------------------------------------------------
StateInv(s) == TRUE
Tags(a) == SelectSeq(a.mids, LAMBDA m : m.does = "tag")
Building == {"route", "expose", "handler", "mid", "amix", "rmix", "conf", "conv"}
AnswerInv(a, e, v) ==
    \* an answer of the views has been through every layer, last added first
    /\ v.seen # NoSeen =>
        LET w == v.seen[1]
            n == Len(Tags(a))
        IN /\ w.trail = [i \in 1..n |-> Tags(a)[n + 1 - i].label]
           /\ v.out = [i \in 1..n |-> Tags(a)[i].label]
           \* and comes from a view of the endpoint for the method
           /\ \E i \in 1..Len(a.views) : a.views[i].label = w.label /\ a.views[i].name = w.ep
                    /\ (a.views[i].method = e.method \/ (e.method = "HEAD" /\ a.views[i].method = "GET"))
           /\ \E i \in 1..Len(a.rt.rt) : a.rt.rt[i].ep = w.ep /\ ~a.rt.rt[i].bo
           \* the view's request is let go of, once, at the end
           /\ v.closed[Len(v.closed)] = "request"
    /\ v.seen = NoSeen => v.status \notin {"200", "204"}
    /\ e.method = "HEAD" => v.body = ""
    /\ \A i, j \in 1..Len(v.closed) : v.closed[i] = v.closed[j] => i = j
StepInv(s, e, r) ==
    /\ e.op # "debug" => \A i \in 1..Len(s.apps) : r.st.apps[i] = s.apps[i]
    /\ e.op \notin Building => r.st.b = s.b
    /\ e.op = "request" /\ r.ret.k = "val" => AnswerInv(s.apps[e.app], e, r.ret.v)
    /\ e.op = "visit" /\ r.ret.k = "val" => AnswerInv(s.apps[e.app], e, r.ret.v.got)
    /\ e.op = "build" /\ r.ret.k = "val" => Len(r.st.apps) = Len(s.apps) + 1
=============================================================================
