------------------------------ MODULE Redirects ------------------------------
(***************************************************************************)
(* Where a response leads: the Location and Content-Location headers as    *)
(* set, the page a redirect shows, and the absolute URL every request      *)
(* finally gets.                                                           *)
(*                                                                         *)
(* c: [envs, auto], envs the environments of the requests a response is    *)
(* sent to, auto whether the class makes locations absolute.               *)
(***************************************************************************)
EXTENDS UrlForms
Ho == INSTANCE Hosts

InitState(c) == [c |-> c, auto |-> c.auto, status |-> 200, loc |-> None, cloc |-> None]
InitRet(c) == Done

(* ---- the reference a location is, from the root of the application -------*)
RECURSIVE Dots(_, _)
Dots(segs, out) ==
    IF segs = <<>> THEN out
    ELSE Dots(Tail(segs), IF segs[1] = ".." THEN (IF out = <<>> THEN out ELSE SubSeq(out, 1, Len(out) - 1))
                          ELSE IF segs[1] = "." THEN out ELSE Append(out, segs[1]))
Segs(p) == Tail(Split(p, "/"))
Tidy(segs) ==
    LET last == segs[Len(segs)]
    IN "/" \o Join(Dots(segs, <<>>) \o (IF last \in {".", ".."} THEN <<"">> ELSE <<>>), "/")
Front(q) == SubSeq(q, 1, Len(q) - 1)
Target(base, t) ==
    LET b == Apart(base)
        u == Apart(t)
        path == IF u.path = "" THEN b.path
                ELSE IF StartsWith(u.path, "/") THEN Tidy(Segs(u.path))
                ELSE Tidy(Front(Segs(b.path)) \o Split(u.path, "/"))
    IN IF u.scheme # "" /\ u.scheme # b.scheme THEN t
       ELSE IF Netloc(u) # "" THEN Together([u EXCEPT !.scheme = b.scheme])
       ELSE Together([b EXCEPT !.path = path, !.query = u.query, !.frag = u.frag])
Root(env) == IriToUri(Ho!Build(env, Ho!HostOf(env), "root").v).v
WireLoc(st, env) ==
    IF st.loc = None THEN Val(None)
    ELSE LET u == IriToUri(st.loc)
         IN IF u.k = "exc" THEN u ELSE Val(IF st.auto THEN Target(Root(env), u.v) ELSE u.v)
WireCloc(st) == IF st.cloc = None THEN Val(None) ELSE IriToUri(st.cloc)

(* ---- the page ------------------------------------------------------------*)
HtmlEscape(s) == MapText(s, LAMBDA c : CASE c = "&" -> "&amp;" [] c = "<" -> "&lt;" [] c = ">" -> "&gt;"
                                         [] c = "\"" -> "&quot;" [] c = "'" -> "&#x27;" [] OTHER -> c)
Page(url, shown) ==
    "<!DOCTYPE HTML PUBLIC \"-//W3C//DTD HTML 3.2 Final//EN\">\n<title>Redirecting...</title>\n<h1>Redirecting...</h1>\n"
    \o "<p>You should be redirected automatically to target URL: <a href=\"" \o url \o "\">" \o shown \o "</a>.  If not click the link."
LeadsTo(st, auto, l, code) ==
    LET u == IriToUri(l)
    IN IF u.k = "exc" THEN R(st, u)
       ELSE R([st EXCEPT !.status = code, !.loc = u.v, !.cloc = None, !.auto = auto],
              Val([status |-> code, loc |-> u.v, type |-> "text/html; charset=utf-8", body |-> Page(HtmlEscape(u.v), HtmlEscape(l))]))

(* ---- the same URL with a slash appended ----------------------------------*)
SlashPath(env) ==
    LET p == Strip(env.path, {"/"}) s == Strip(env.script, {"/"})
        both == s \o (IF s # "" /\ p # "" THEN "/" ELSE "") \o p
    IN IF both = "" THEN "/" ELSE "/" \o both \o "/"
SlashLoc(env) == QuoteUrl(SlashPath(env), {"/"}, env.cs) \o (LET q == QuoteUrl(env.query, FixSafe, env.cs) IN IF q = "" THEN "" ELSE "?" \o q)

BadText(s) == AnyIn(s, {"\n", "\r"})
Step(st, e) ==
    CASE e.op = "redirect" -> LeadsTo(st, st.c.auto, e.loc, e.code)
      [] e.op = "slash" ->
            LET s2 == LeadsTo(st, TRUE, SlashLoc(st.c.envs[e.i]), e.code).st
            IN R(s2, Val([status |-> e.code, loc |-> WireLoc(s2, st.c.envs[e.i]).v]))
      \* set by hand; None takes the header away
      [] e.op = "set" -> IF BadText(e.loc) THEN R(st, Exc("ValueError")) ELSE R([st EXCEPT !.loc = e.loc], Done)
      [] e.op = "setc" -> IF BadText(e.loc) THEN R(st, Exc("ValueError")) ELSE R([st EXCEPT !.cloc = e.loc], Done)
      [] e.op = "status" -> R([st EXCEPT !.status = e.code], Done)
      [] e.op = "send" ->
            LET l == WireLoc(st, st.c.envs[e.i]) k == WireCloc(st)
            IN R(st, IF l.k = "exc" THEN l ELSE IF k.k = "exc" THEN k
                     ELSE Val([status |-> st.status, loc |-> l.v, cloc |-> k.v]))
\* sending changes nothing
Obs(st) == <<st.status, st.loc, st.cloc>>

\* C27
StateInv(st) == TRUE
Same(a, env) == LET r == Apart(Root(env)) IN a.scheme = r.scheme /\ Netloc(a) = Netloc(r)
CountCh(s, ch) == Cardinality({i \in 1..Len(s) : Ch(s, i) = ch})
Octets(s) == DecodeEsc(s, {}, 1)
StepInv(st, e, r) ==
    LET v == r.ret.v IN
    /\ e.op = "send" /\ r.ret.k = "val" /\ v.loc # None =>
        /\ Ascii(v.loc)
        /\ st.auto =>
            LET a == Apart(v.loc) u == Apart(st.loc) env == st.c.envs[e.i] IN
            /\ a # Bad /\ a.scheme # ""
            \* a reference without host stays on the site, one with a host leads to it
            /\ u.scheme = "" /\ Netloc(u) = "" => Same(a, env)
            /\ u.scheme = "" /\ Netloc(u) = "" /\ ~StartsWith(u.path, "/") /\ ~Contains(u.path, "..") =>
                    StartsWith(a.path, Apart(Root(env)).path)
            /\ u.host # "" => HostUri(LowerHost(u.host)) = a.host \/ ~Ascii(u.host)
    /\ e.op = "send" /\ r.ret.k = "val" /\ v.cloc # None => Ascii(v.cloc)
    /\ e.op = "redirect" /\ r.ret.k = "val" =>
        \* nothing but the page's own markup
        /\ Ascii(v.loc)
        /\ \A ch \in {"<", ">", "\""} : CountCh(v.body, ch) = CountCh(Page("", ""), ch)
    /\ e.op = "slash" =>
        LET env == st.c.envs[e.i] a == Apart(v.loc) IN
        /\ Ascii(v.loc) /\ Same(a, env) /\ a.frag = "" /\ a.user = ""
        /\ EndsWith(a.path, "/")
        /\ (env.cs = "utf-8" => EncodeUtf8(SlashPath(env)) = Octets(a.path))
        /\ (Plain("http://h/?" \o env.query) =>
                PartFrom(a.query, CodesOf(":&=+$,"), 1) = PartFrom(env.query, CodesOf(":&=+$,"), 1))
=============================================================================
