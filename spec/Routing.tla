------------------------------ MODULE Routing ------------------------------
(***************************************************************************)
(* URL routing: what a route table answers when a path is matched or a URL *)
(* is built, and the redirects it issues.  (verktyg/routing.py)            *)
(*                                                                         *)
(* A route is described by its text, e.g. "/blog/<int(min=1):page>/", and  *)
(* options; the state is the table of registered routes plus the address   *)
(* (server, subdomain, script root, scheme) the table is bound to.         *)
(* Values carry their type: [t |-> "i", v |-> "42"], "f" float, "s" text,  *)
(* "u" UUID.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Str, Url, TLC

----------------------------------------------------------------------------
(* Parsing of route texts                                                  *)

IdentStart == AlphaSet \union {"_"}
IdentSet == AlnumSet \union {"_"}
IsIdent(s) == s # "" /\ Ch(s, 1) \in IdentStart /\ AllIn(s, IdentSet)

\* split at commas outside of quotes
RECURSIVE ArgsFrom(_, _, _, _)
ArgsFrom(s, i, cur, quote) ==
    IF i > Len(s) THEN <<cur>>
    ELSE LET c == Ch(s, i) IN
         IF quote # "" THEN ArgsFrom(s, i + 1, cur \o c, IF c = quote THEN "" ELSE quote)
         ELSE IF c = "," THEN <<cur>> \o ArgsFrom(s, i + 1, "", "")
         ELSE ArgsFrom(s, i + 1, cur \o c, IF c \in {"\"", "'"} THEN c ELSE "")
UnquoteArg(s) == IF Len(s) >= 2 /\ Ch(s, 1) \in {"\"", "'"} THEN SubSeq(s, 2, Len(s) - 1) ELSE s
\* [n |-> name or "", v |-> text]
ParseArg(a) ==
    LET t == Strip(a, {" "})
        i == Find(t, "=")
    IN IF i = 0 \/ Ch(t, 1) \in {"\"", "'"} THEN [n |-> "", v |-> UnquoteArg(t)]
       ELSE [n |-> Strip(UpTo(t, i - 1), {" "}), v |-> UnquoteArg(Strip(From(t, i + 1), {" "}))]
ParseArgs(s) == IF s = "" THEN <<>> ELSE LET q == ArgsFrom(s, 1, "", "") IN [i \in 1..Len(q) |-> ParseArg(q[i])]
\* value of argument `name`, at position pos if given without a name
ArgOf(args, name, pos, default) ==
    LET S == {i \in 1..Len(args) : args[i].n = name \/ (args[i].n = "" /\ i = pos)}
    IN IF S = {} \/ args[MinOf(S)].v = "None" THEN default ELSE NatOf(args[MinOf(S)].v)

KnownConverters == {"default", "string", "any", "path", "int", "float", "uuid"}
NoConv == [k |-> "", min |-> 0, max |-> -1, fix |-> 0, lo |-> -1, hi |-> -1, items |-> <<>>]
Conv(name, args) ==
    CASE name \in {"default", "string"} ->
            LET len == ArgOf(args, "length", 3, -1) IN
            [NoConv EXCEPT !.k = "string",
                           !.min = IF len # -1 THEN len ELSE ArgOf(args, "minlength", 1, 1),
                           !.max = IF len # -1 THEN len ELSE ArgOf(args, "maxlength", 2, -1)]
      [] name = "any" -> [NoConv EXCEPT !.k = "any", !.items = [i \in 1..Len(args) |-> args[i].v]]
      [] name = "int" -> [NoConv EXCEPT !.k = "int", !.fix = ArgOf(args, "fixed_digits", 1, 0),
                                        !.lo = ArgOf(args, "min", 2, -1), !.hi = ArgOf(args, "max", 3, -1)]
      [] name = "float" -> [NoConv EXCEPT !.k = "float", !.lo = ArgOf(args, "min", 1, -1), !.hi = ArgOf(args, "max", 2, -1)]
      [] OTHER -> [NoConv EXCEPT !.k = name]
Weight(c) == IF c.k \in {"int", "float"} THEN 50 ELSE IF c.k = "path" THEN 200 ELSE 100

Lit(s) == [v |-> FALSE, s |-> s, c |-> NoConv]
Var(n, c) == [v |-> TRUE, s |-> n, c |-> c]
Parsed(ts) == [err |-> "", toks |-> ts]
ParseErr(e) == [err |-> e, toks |-> <<>>]
RECURSIVE ParseText(_)
ParseText(s) ==
    LET i == Find(s, "<") IN
    IF i = 0 THEN IF Contains(s, ">") THEN ParseErr("ValueError") ELSE Parsed(IF s = "" THEN <<>> ELSE <<Lit(s)>>)
    ELSE LET j == FindFrom(s, ">", i)
             inner == Mid(s, i + 1, j - 1)
             colon == RFind(inner, ":")
             head == UpTo(inner, colon - 1)
             paren == Find(head, "(")
             cname == IF colon = 0 THEN "default" ELSE IF paren = 0 THEN head ELSE UpTo(head, paren - 1)
             args == IF colon = 0 \/ paren = 0 THEN "" ELSE Mid(head, paren + 1, Len(head) - 1)
             name == From(inner, colon + 1)
             rest == ParseText(From(s, j + 1))
             pre == IF i = 1 THEN <<>> ELSE <<Lit(UpTo(s, i - 1))>>
         IN IF j = 0 \/ ~IsIdent(name) \/ ~IsIdent(cname) THEN ParseErr("ValueError")
            ELSE IF cname \notin KnownConverters THEN ParseErr("LookupError")
            ELSE IF rest.err # "" THEN rest
            ELSE IF \E k \in 1..Len(rest.toks) : rest.toks[k].v /\ rest.toks[k].s = name THEN ParseErr("ValueError")
            ELSE Parsed(pre \o <<Var(name, Conv(cname, ParseArgs(args)))>> \o rest.toks)

LitWeights(s) == LET ps == SelectSeq(Split(s, "/"), LAMBDA x : x # "") IN [i \in 1..Len(ps) |-> <<0, 0 - Len(ps[i])>>]
TokWeights(ts) == Flat([i \in 1..Len(ts) |-> IF ts[i].v THEN <<<<1, Weight(ts[i].c)>>>> ELSE LitWeights(ts[i].s)])

PairMap(pairs) == [n \in {pairs[i][1] : i \in 1..Len(pairs)} |-> pairs[CHOOSE i \in 1..Len(pairs) : pairs[i][1] = n][2]]

(* A route definition as written by the program, unfolded through the      *)
(* factories that wrap it (innermost first).                               *)
Subst(s, k, v) == ReplaceAll(s, "{" \o k \o "}", v)
SubstVal(x, k, v) == IF x.t = "s" THEN [x EXCEPT !.v = Subst(x.v, k, v)] ELSE x
Wrap(d, w) ==
    CASE w.w = "mount" -> [d EXCEPT !.r = RStrip(w.v, {"/"}) \o d.r]
      [] w.w = "subdomain" -> [d EXCEPT !.sub = w.v]
      [] w.w = "prefix" -> [d EXCEPT !.ep = w.v \o d.ep]
      [] w.w = "template" ->
            [d EXCEPT !.r = Subst(d.r, "name", w.v), !.ep = Subst(d.ep, "name", w.v),
                      !.sub = IF d.sub = None THEN None ELSE Subst(d.sub, "name", w.v),
                      !.defs = [i \in 1..Len(d.defs) |-> <<d.defs[i][1], SubstVal(d.defs[i][2], "name", w.v)>>]]
RECURSIVE WrapAll(_, _)
WrapAll(d, ws) == IF ws = <<>> THEN d ELSE WrapAll(Wrap(d, ws[1]), Tail(ws))

Compile(cfg, def) ==
    LET d == WrapAll(def, def.wrap)
        leaf == ~EndsWith(d.r, "/")
        domtext == IF cfg.hostm THEN d.host ELSE IF d.sub = None THEN cfg.dsub ELSE d.sub
        dom == ParseText(domtext)
        path == ParseText(IF leaf THEN d.r ELSE RStrip(d.r, {"/"}))
        toks == dom.toks \o <<Lit("|")>> \o path.toks
        vars == {toks[i].s : i \in {i \in 1..Len(toks) : toks[i].v}}
    IN [err |-> IF ~StartsWith(def.r, "/") THEN "ValueError"
                ELSE IF dom.err # "" THEN dom.err ELSE path.err,
        src |-> d.r, toks |-> toks, leaf |-> leaf,
        strict |-> IF d.strict = "-" THEN cfg.strict ELSE d.strict = "T",
        defs |-> PairMap(d.defs), ndefs |-> Len(d.defs),
        ep |-> d.ep, bo |-> d.bo, alias |-> d.alias, redir |-> d.redir, fn |-> "fn" \in DOMAIN d /\ d.fn,
        vars |-> vars, args |-> vars \union {d.defs[i][1] : i \in 1..Len(d.defs)},
        w |-> TokWeights(dom.toks) \o TokWeights(path.toks)]

ConvOf(r, n) == r.toks[CHOOSE i \in 1..Len(r.toks) : r.toks[i].v /\ r.toks[i].s = n].c
\* what makes two routes "the same URL" for the purpose of default redirects
Trace(r) == [i \in 1..Len(r.toks) |-> <<r.toks[i].v, r.toks[i].s>>] \o (IF r.leaf THEN <<>> ELSE <<<<FALSE, "/">>>>)

----------------------------------------------------------------------------
(* Matching                                                                *)

Digits == DigitSet \union {CharTab.arabic1}
\* number of characters from position pos on that belong to S
RECURSIVE RunLen(_, _, _)
RunLen(s, pos, S) == IF pos > Len(s) \/ Ch(s, pos) \notin S THEN 0 ELSE 1 + RunLen(s, pos + 1, S)
RECURSIVE SegLen(_, _)
SegLen(s, pos) == IF pos > Len(s) \/ Ch(s, pos) = "/" THEN 0 ELSE 1 + SegLen(s, pos + 1)
RECURSIVE LineLen(_, _)
LineLen(s, pos) == IF pos > Len(s) \/ Ch(s, pos) = "\n" THEN 0 ELSE 1 + LineLen(s, pos + 1)
Min2(a, b) == IF a < b THEN a ELSE b
Down(a, b) == [i \in 1..(IF a < b THEN 0 ELSE a - b + 1) |-> a - i + 1]
Up(a, b) == [i \in 1..(IF b < a THEN 0 ELSE b - a + 1) |-> a + i - 1]
UuidShape(t) ==
    /\ Len(t) = 36
    /\ \A i \in 1..36 : IF i \in {9, 14, 19, 24} THEN Ch(t, i) = "-" ELSE Ch(t, i) \in HexChars

\* lengths of the text at pos the converter can take, most wanted first
Candidates(c, s, pos) ==
    CASE c.k = "string" ->
            LET n == SegLen(s, pos) IN Down(IF c.max = -1 THEN n ELSE Min2(n, c.max), c.min)
      [] c.k = "any" ->
            LET fits == SelectSeq(c.items, LAMBDA x : StartsWith(From(s, pos), x))
            IN [i \in 1..Len(fits) |-> Len(fits[i])]
      [] c.k = "path" ->
            IF pos > Len(s) \/ Ch(s, pos) = "/" THEN <<>> ELSE Up(1, 1 + LineLen(s, pos + 1))
      [] c.k = "int" -> Down(RunLen(s, pos, Digits), 1)
      [] c.k = "float" ->
            LET n == RunLen(s, pos, Digits)
                m == RunLen(s, pos + n + 1, Digits)
            IN IF n = 0 \/ pos + n > Len(s) \/ Ch(s, pos + n) # "." THEN <<>> ELSE Down(n + 1 + m, n + 2)
      [] c.k = "uuid" -> IF UuidShape(UpTo(From(s, pos), 36)) THEN <<36>> ELSE <<>>

NoMatch == [ok |-> FALSE, raw |-> <<>>, suf |-> ""]
RECURSIVE MatchToks(_, _, _, _, _)
RECURSIVE TryLengths(_, _, _, _, _, _, _)
MatchToks(toks, i, s, pos, sfx) ==
    IF i > Len(toks) THEN
        LET rest == From(s, pos) IN
        IF ~sfx THEN IF rest = "" THEN [NoMatch EXCEPT !.ok = TRUE] ELSE NoMatch
        ELSE IF Ch(s, pos - 1) # "/" /\ rest \in {"", "/"} THEN [ok |-> TRUE, raw |-> <<>>, suf |-> rest]
        ELSE NoMatch
    ELSE IF ~toks[i].v THEN
        LET n == Len(toks[i].s) IN
        IF pos + n - 1 <= Len(s) /\ SubSeq(s, pos, pos + n - 1) = toks[i].s
        THEN MatchToks(toks, i + 1, s, pos + n, sfx) ELSE NoMatch
    ELSE TryLengths(toks, i, s, pos, sfx, Candidates(toks[i].c, s, pos), 1)
TryLengths(toks, i, s, pos, sfx, ls, k) ==
    IF k > Len(ls) THEN NoMatch
    ELSE LET m == MatchToks(toks, i + 1, s, pos + ls[k], sfx) IN
         IF m.ok THEN [m EXCEPT !.raw = <<<<toks[i].s, Mid(s, pos, pos + ls[k] - 1)>>>> \o m.raw]
         ELSE TryLengths(toks, i, s, pos, sfx, ls, k + 1)

\* Conversion of the matched text
AsciiDigits(t) == MapText(t, LAMBDA c : IF c = CharTab.arabic1 THEN "1" ELSE c)
CanonNat(t) == LET u == LStrip(AsciiDigits(t), {"0"}) IN IF u = "" THEN "0" ELSE u
IntPart(t) == CanonNat(UpTo(t, Find(t, ".") - 1))
FracPart(t) == LET u == RStrip(AsciiDigits(From(t, Find(t, ".") + 1)), {"0"}) IN IF u = "" THEN "0" ELSE u
CanonFloat(t) == IntPart(t) \o "." \o FracPart(t)
BelowNat(t, n) == Len(t) <= 9 /\ NatOf(t) < n       \* t canonical
AboveNat(t, n) == Len(t) > 9 \/ NatOf(t) > n
InBounds(c, int, frac) ==
    /\ c.lo = -1 \/ ~BelowNat(int, c.lo)
    /\ c.hi = -1 \/ ~(AboveNat(int, c.hi) \/ (~BelowNat(int, c.hi) /\ frac # "0"))
ToVal(c, raw) ==
    CASE c.k = "int" ->
            [ok |-> (c.fix = 0 \/ Len(raw) = c.fix) /\ InBounds(c, CanonNat(raw), "0"), v |-> [t |-> "i", v |-> CanonNat(raw)]]
      [] c.k = "float" ->
            [ok |-> InBounds(c, IntPart(raw), FracPart(raw)), v |-> [t |-> "f", v |-> CanonFloat(raw)]]
      [] c.k = "uuid" -> [ok |-> TRUE, v |-> [t |-> "u", v |-> Lower(raw)]]
      [] OTHER -> [ok |-> TRUE, v |-> [t |-> "s", v |-> raw]]

NoVals == PairMap(<<>>)
Merge(a, b) == [n \in (DOMAIN a) \union (DOMAIN b) |-> IF n \in DOMAIN b THEN b[n] ELSE a[n]]
\* what one route says about a text "domain|/path"
Outcome(cfg, r, text) ==
    IF r.bo THEN [k |-> "none", vals |-> NoVals]
    ELSE LET m == MatchToks(r.toks, 1, text, 1, ~r.leaf \/ ~r.strict)
             conv == [i \in 1..Len(m.raw) |-> ToVal(ConvOf(r, m.raw[i][1]), m.raw[i][2])]
             vals == Merge(PairMap([i \in 1..Len(m.raw) |-> <<m.raw[i][1], conv[i].v>>]), r.defs)
         IN IF ~m.ok THEN [k |-> "none", vals |-> NoVals]
            ELSE IF r.strict /\ ~r.leaf /\ m.suf = "" THEN [k |-> "slash", vals |-> NoVals]
            ELSE IF \E i \in 1..Len(conv) : ~conv[i].ok THEN [k |-> "none", vals |-> NoVals]
            ELSE IF r.alias /\ cfg.rdef THEN [k |-> "alias", vals |-> vals]
            ELSE [k |-> "ok", vals |-> vals]

(* Rank: routes that yield no values first, then the ones with more parts, *)
(* then part by part: fixed text before variables, longer fixed text       *)
(* first, cheaper variables first.                                         *)
RECURSIVE PartsLess(_, _, _)
PartsLess(a, b, i) ==
    IF i > Len(a) THEN FALSE
    ELSE IF a[i] = b[i] THEN PartsLess(a, b, i + 1)
    ELSE a[i][1] < b[i][1] \/ (a[i][1] = b[i][1] /\ a[i][2] < b[i][2])
Better(a, b) ==
    LET na == IF a.args = {} THEN 0 ELSE 1
        nb == IF b.args = {} THEN 0 ELSE 1
    IN \/ na < nb
       \/ na = nb /\ Len(a.w) > Len(b.w)
       \/ na = nb /\ Len(a.w) = Len(b.w) /\ PartsLess(a.w, b.w, 1)
\* strict order on the indices of a table
Before(rt, i, j) == Better(rt[i], rt[j]) \/ (~Better(rt[j], rt[i]) /\ i < j)

Domain(st, bind) == IF st.cfg.hostm THEN bind.server ELSE bind.sub
MatchText(st, bind, path) == Domain(st, bind) \o "|/" \o LStrip(path, {"/"})

----------------------------------------------------------------------------
(* Building                                                                *)

CountBefore(a, b) ==      \* build rank: canonical before alias, then more arguments, then more defaults
    LET al(x) == IF x.alias THEN 1 ELSE 0 IN
    \/ al(a) < al(b)
    \/ al(a) = al(b) /\ Cardinality(a.args) > Cardinality(b.args)
    \/ al(a) = al(b) /\ Cardinality(a.args) = Cardinality(b.args) /\ a.ndefs > b.ndefs
BuildBefore(rt, i, j) == CountBefore(rt[i], rt[j]) \/ (~CountBefore(rt[j], rt[i]) /\ i < j)
OfEndpoint(rt, ep) == {i \in 1..Len(rt) : rt[i].ep = ep}
FirstBuild(rt, S) == CHOOSE i \in S : \A j \in S \ {i} : BuildBefore(rt, i, j)
FirstMatch(rt, S) == CHOOSE i \in S : \A j \in S \ {i} : Before(rt, i, j)

\* equality of values in the host language: numbers compare across types
NumKey(v) == IF v.t = "i" THEN v.v \o ".0" ELSE v.v
ValEq(a, b) == IF a.t \in {"i", "f"} /\ b.t \in {"i", "f"} THEN NumKey(a) = NumKey(b) ELSE a.t = b.t /\ a.v = b.v
Suitable(r, vals) ==
    /\ \A n \in r.args : n \in DOMAIN r.defs \/ n \in DOMAIN vals
    /\ \A n \in DOMAIN r.defs : n \in DOMAIN vals => ValEq(r.defs[n], vals[n])

\* values a converter can write into a URL at all
IsDecimal(t) == LET i == Find(t, ".") IN i # 0 /\ IsNat(UpTo(t, i - 1)) /\ IsNat(From(t, i + 1))
CanRender(c, v) ==
    CASE c.k = "int" -> v.t \in {"i", "f"} \/ (v.t = "s" /\ IsNat(v.v))
      [] c.k = "float" -> v.t \in {"i", "f"} \/ (v.t = "s" /\ (IsNat(v.v) \/ IsDecimal(v.v)))
      [] OTHER -> TRUE
Fits(r, vals) == Suitable(r, vals) /\ \A n \in r.vars : CanRender(ConvOf(r, n), vals[n])
ToUrl(cs, c, v) ==
    CASE c.k = "int" -> LET t == IF v.t = "f" THEN IntPart(v.v) ELSE CanonNat(v.v) IN Rep("0", c.fix - Len(t)) \o t
      [] c.k = "float" -> IF Contains(v.v, ".") THEN CanonFloat(v.v) ELSE CanonNat(v.v) \o ".0"
      [] c.k = "uuid" -> v.v
      [] OTHER -> QuoteUrl(v.v, {"/", ":"}, cs)
StaticSafe == {"/", ":", "|", "+"}
Render(cs, toks, vals) ==
    Join([i \in 1..Len(toks) |-> IF toks[i].v THEN ToUrl(cs, toks[i].c, vals[toks[i].s])
                                 ELSE QuoteUrl(toks[i].s, StaticSafe, cs)], "")
BarAt(r) == CHOOSE i \in 1..Len(r.toks) : ~r.toks[i].v /\ r.toks[i].s = "|" /\ \A j \in 1..(i - 1) : r.toks[j].v \/ r.toks[j].s # "|"
DomOf(st, r, vals) == Render(st.cfg.cs, SubSeq(r.toks, 1, BarAt(r) - 1), vals)
PathOf(st, r, vals) == Render(st.cfg.cs, SubSeq(r.toks, BarAt(r) + 1, Len(r.toks)), vals) \o (IF r.leaf THEN "" ELSE "/")

HostOf(st, bind, dom) ==
    IF st.cfg.hostm THEN dom
    ELSE IF dom = "" THEN bind.server ELSE dom \o "." \o bind.server
OwnHost(st, bind) == HostOf(st, bind, Domain(st, bind))
Origin(bind, host) == (IF bind.scheme = "" THEN "" ELSE bind.scheme \o ":") \o "//" \o host
Script(bind) == IF EndsWith(bind.script, "/") THEN bind.script ELSE bind.script \o "/"
External(bind, host, path) == Origin(bind, host) \o Script(bind) \o LStrip(path, {"/"})

\* values: named typed values; extra: pairs <<name, texts>> that no route uses
QueryOf(st, r, vals, extra) ==
    LET names == {n \in DOMAIN vals : n \notin r.args}
        own == SortPairs([i \in 1..Cardinality(names) |->
                 LET ns == CHOOSE f \in [1..Cardinality(names) -> names] : \A a, b \in 1..Cardinality(names) : a # b => f[a] # f[b]
                 IN <<ns[i], vals[ns[i]].v>>])
        more == Flat([i \in 1..Len(extra) |-> IF extra[i][1] \in r.args THEN <<>>
                        ELSE [j \in 1..Len(extra[i][2]) |-> <<extra[i][1], extra[i][2][j]>>]])
        all == SortPairs(own \o more)
    IN IF all = <<>> THEN "" ELSE "?" \o EncodeQuery(all, st.cfg.cs)

BuildChoice(st, ep, vals) == {i \in OfEndpoint(st.rt, ep) : Fits(st.rt[i], vals)}
Build(st, bind, ep, vals, extra, ext, unknown) ==
    LET S == BuildChoice(st, ep, vals) IN
    IF S = {} THEN Exc("LookupError")
    ELSE LET r == st.rt[FirstBuild(st.rt, S)]
             dom == DomOf(st, r, vals)
             path == PathOf(st, r, vals) \o (IF unknown THEN QueryOf(st, r, vals, extra) ELSE "")
         IN IF ~ext /\ dom = Domain(st, bind) THEN Val(Script(bind) \o LStrip(path, {"/"}))
            ELSE Val(External(bind, HostOf(st, bind, dom), path))

----------------------------------------------------------------------------
(* Redirects                                                               *)

\* query arguments given as pairs (a mapping, or one with several values under a name)
QueryText(st, q) == IF q.t \in {"p", "m", "l"} THEN EncodeQuery(q.pairs, st.cfg.cs) ELSE q.s
WithQuery(st, url, q) == LET t == QueryText(st, q) IN IF t = "" THEN url ELSE url \o "?" \o t
Redirect(url) == [k |-> "redirect", v |-> url]

SlashUrl(st, bind, path, q) ==
    WithQuery(st, External(bind, OwnHost(st, bind), QuoteUrl(path, StaticSafe, st.cfg.cs) \o "/"), q)
\* routes that express the same values through their defaults
DefaultsFor(st, i, vals) ==
    {j \in OfEndpoint(st.rt, st.rt[i].ep) :
        /\ BuildBefore(st.rt, j, i)
        /\ ~st.rt[j].bo /\ st.rt[j].ndefs > 0
        /\ Trace(st.rt[j]) # Trace(st.rt[i])
        /\ st.rt[j].args = st.rt[i].args
        /\ Fits(st.rt[j], vals)}
\* explicit target: joined to the script root, values quoted
RECURSIVE FillFrom(_, _, _, _)
FillFrom(st, r, tmpl, vals) ==
    LET i == Find(tmpl, "<") j == Find(tmpl, ">") n == Mid(tmpl, i + 1, j - 1) IN
    IF i = 0 THEN tmpl
    ELSE UpTo(tmpl, i - 1) \o ToUrl(st.cfg.cs, ConvOf(r, n), vals[n]) \o FillFrom(st, r, From(tmpl, j + 1), vals)
\* resolution of "." and ".." in an absolute path, as clients do it
RECURSIVE DropDots(_, _)
DropDots(in, out) ==
    IF in = <<>> THEN out
    ELSE LET last == Len(in) = 1 IN
         IF in[1] = "." THEN DropDots(Tail(in), IF last THEN Append(out, "") ELSE out)
         ELSE IF in[1] = ".." THEN
            LET cut == IF out = <<>> THEN out ELSE SubSeq(out, 1, Len(out) - 1)
            IN DropDots(Tail(in), IF last THEN Append(cut, "") ELSE cut)
         ELSE DropDots(Tail(in), Append(out, in[1]))
Resolve(path, squeeze) ==
    LET segs == Tail(Split(path, "/"))
        n == Len(segs)
        tidy == IF squeeze THEN SelectSeq(SubSeq(segs, 1, n - 1), LAMBDA x : x # "") \o <<segs[n]>> ELSE segs
    IN "/" \o Join(DropDots(tidy, <<>>), "/")
ResolveUrl(t, squeeze) ==
    LET k == Find(t, "?") IN
    IF k = 0 THEN Resolve(t, squeeze) ELSE Resolve(UpTo(t, k - 1), squeeze) \o From(t, k)
\* an explicit target computed by the program: here, its path and the values it was given as query
FnQuery(vals) ==
    LET ns == DOMAIN vals
        f == CHOOSE f \in [1..Cardinality(ns) -> ns] : \A a, b \in 1..Cardinality(ns) : a # b => f[a] # f[b]
    IN IF ns = {} THEN "" ELSE "?" \o EncodeQuery(SortPairs([i \in 1..Cardinality(ns) |-> <<f[i], vals[f[i]].v>>]), "utf-8")
TargetUrl(st, bind, r, vals) ==
    LET t == IF r.fn THEN r.redir \o FnQuery(vals) ELSE FillFrom(st, r, r.redir, vals)
        host == IF st.cfg.hostm THEN bind.server ELSE OwnHost(st, bind)
    IN IF StartsWith(r.redir, "http://") \/ StartsWith(r.redir, "https://") THEN t
       ELSE IF StartsWith(r.redir, "/") THEN Origin(bind, host) \o ResolveUrl(t, FALSE)
       ELSE Origin(bind, host) \o ResolveUrl(Script(bind) \o t, TRUE)

Match(st, bind, path, q) ==
    LET text == MatchText(st, bind, path)
        out == TLCEval([i \in 1..Len(st.rt) |-> Outcome(st.cfg, st.rt[i], text)])
        S == {i \in 1..Len(st.rt) : out[i].k # "none"}
    IN IF S = {} THEN Exc("NotFound")
       ELSE LET i == FirstMatch(st.rt, S)
                r == st.rt[i]
                vals == out[i].vals
                D == DefaultsFor(st, i, vals)
            IN CASE out[i].k = "slash" -> Redirect(SlashUrl(st, bind, path, q))
                 [] out[i].k = "alias" ->
                        LET b == Build(st, bind, r.ep, vals, <<>>, TRUE, FALSE) IN
                        IF b.k = "exc" THEN b
                        ELSE IF \A j \in BuildChoice(st, r.ep, vals) : st.rt[j].alias THEN Exc("AssertionError")
                        ELSE Redirect(WithQuery(st, b.v, q))
                 [] out[i].k = "ok" /\ st.cfg.rdef /\ D # {} ->
                        LET d == st.rt[FirstBuild(st.rt, D)]
                            all == Merge(vals, d.defs)
                        IN Redirect(WithQuery(st, External(bind, HostOf(st, bind, DomOf(st, d, all)), PathOf(st, d, all)), q))
                 [] OTHER ->
                        IF r.redir # None THEN Redirect(TargetUrl(st, bind, r, vals))
                        ELSE [k |-> "match", v |-> [ep |-> r.ep, vals |-> vals, route |-> r.src]]

\* Where a client that follows the redirect arrives
HostIn(url) == LET a == From(url, Find(url, "//") + 2) i == Find(a, "/") IN UpTo(a, i - 1)
PathIn(url) == LET a == From(url, Find(url, "//") + 2) i == Find(a, "/")
                   p == From(a, i) k == Find(p, "?") IN IF k = 0 THEN p ELSE UpTo(p, k - 1)
QueryIn(url) == LET k == Find(url, "?") IN IF k = 0 THEN "" ELSE From(url, k + 1)
OnSite(st, bind, url) ==
    LET h == HostIn(url) IN
    /\ StartsWith(url, bind.scheme \o "://")
    /\ st.cfg.hostm \/ h = bind.server \/ EndsWith(h, "." \o bind.server)
    /\ StartsWith(PathIn(url), Script(bind))
Arrive(st, bind, url) ==
    LET h == HostIn(url) IN
    IF st.cfg.hostm THEN [bind EXCEPT !.server = h]
    ELSE [bind EXCEPT !.sub = IF h = bind.server THEN "" ELSE UpTo(h, Len(h) - Len(bind.server) - 1)]
MaxHops == 6
RECURSIVE Follow(_, _, _, _, _)
Follow(st, bind, path, q, hops) ==
    LET m == Match(st, bind, path, q) IN
    IF m.k # "redirect" THEN [hops |-> hops, end |-> m]
    ELSE IF ~OnSite(st, bind, m.v) THEN [hops |-> Append(hops, m.v), end |-> Exc("left the site")]
    ELSE IF Len(hops) = MaxHops THEN [hops |-> hops, end |-> Exc("too many redirects")]
    ELSE LET u == PathIn(m.v)
             p == UnquoteUrl(From(u, Len(Script(bind))), st.cfg.cs)
         IN Follow(st, Arrive(st, bind, m.v), p, [t |-> "s", s |-> QueryIn(m.v), pairs |-> <<>>], Append(hops, m.v))

----------------------------------------------------------------------------
(* Binding to a request environment                                        *)
EnvHost(e) ==
    IF e.host # "" THEN e.host
    ELSE e.name \o (IF <<e.scheme, e.port>> \in {<<"http", "80">>, <<"https", "443">>} THEN "" ELSE ":" \o e.port)
EnvBind(cfg, e) ==
    LET cur == Split(Lower(EnvHost(e)), ".")
        real == Split(Lower(e.hint), ".")
        n == Len(cur) - Len(real)
        fits == n >= 0 /\ SubSeq(cur, n + 1, Len(cur)) = real
        sub == IF cfg.hostm THEN ""
               ELSE IF e.hint = "" THEN cfg.dsub
               ELSE IF ~fits THEN "<invalid>"
               ELSE Join(SelectSeq(SubSeq(cur, 1, n), LAMBDA x : x # ""), ".")
    IN [server |-> Lower(IF e.hint = "" THEN EnvHost(e) ELSE e.hint), sub |-> Lower(sub),
        script |-> e.script, scheme |-> e.scheme]

----------------------------------------------------------------------------
RECURSIVE AddAll(_, _)
AddAll(st, defs) ==
    IF defs = <<>> THEN st ELSE AddAll([st EXCEPT !.rt = Append(@, Compile(st.cfg, defs[1]))], Tail(defs))
Normal(b) == [b EXCEPT !.server = Lower(b.server), !.sub = Lower(b.sub)]
InitState(c) == TLCEval(AddAll([cfg |-> c.cfg, bind |-> Normal(c.bind), rt |-> <<>>], c.routes))
InitRet(c) == Done

RECURSIVE InOrder(_, _)
InOrder(rt, S) == IF S = {} THEN <<>> ELSE LET i == FirstMatch(rt, S) IN <<rt[i].src>> \o InOrder(rt, S \ {i})

Step(st, e) ==
    CASE e.op = "match" -> R(st, Match(st, st.bind, e.path, e.q))
      [] e.op = "test" -> LET m == Match(st, st.bind, e.path, [t |-> "s", s |-> "", pairs |-> <<>>])
                           IN R(st, IF m.k = "exc" /\ m.v # "NotFound" THEN m ELSE Val(m.k # "exc"))
      [] e.op = "follow" -> R(st, Val(Follow(st, st.bind, e.path, e.q, <<>>)))
      [] e.op = "build" -> R(st, Build(st, st.bind, e.ep, PairMap(e.vals), e.extra, e.ext, e.unknown))
      [] e.op = "roundtrip" ->
            LET b == Build(st, st.bind, e.ep, PairMap(e.vals), <<>>, TRUE, FALSE) IN
            IF b.k = "exc" THEN R(st, b)
            ELSE R(st, Val([url |-> b.v,
                            back |-> Match(st, Arrive(st, st.bind, b.v),
                                           UnquoteUrl(From(PathIn(b.v), Len(Script(st.bind))), st.cfg.cs),
                                           [t |-> "s", s |-> "", pairs |-> <<>>])]))
      [] e.op = "add" ->
            LET r == Compile(st.cfg, e.r) IN
            IF r.err # "" THEN R(st, Exc(r.err)) ELSE R([st EXCEPT !.rt = Append(@, r)], Done)
      [] e.op = "bind" -> R([st EXCEPT !.bind = Normal(e.bind)], Done)
      [] e.op = "env" ->
            LET b == EnvBind(st.cfg, e.env) IN
            R(st, Match(st, b, e.env.path, [t |-> "s", s |-> e.env.query, pairs |-> <<>>]))
      [] e.op = "expecting" ->
            LET S == OfEndpoint(st.rt, e.ep) IN
            IF S = {} THEN R(st, Exc("KeyError"))
            ELSE R(st, Val(\E i \in S : {e.args[k] : k \in 1..Len(e.args)} \subseteq st.rt[i].args))
      [] e.op = "iterep" ->       \* the routes of an endpoint, best for building first
            LET S == OfEndpoint(st.rt, e.ep)
                before(a, b) == BuildBefore(st.rt, a, b)
            IN IF S = {} THEN R(st, Exc("KeyError"))
               ELSE R(st, Val([k \in 1..Cardinality(S) |->
                        st.rt[CHOOSE i \in S : Cardinality({j \in S : before(j, i)}) = k - 1].src]))
      [] e.op = "again" ->        \* a route belongs to one map
            R(st, IF st.rt = <<>> THEN Done ELSE Exc("RuntimeError"))
      [] e.op = "trybind" ->
            R(st, IF st.cfg.hostm THEN IF e.sub # None THEN Exc("RuntimeError") ELSE Done
                  ELSE IF e.server \in {None, ""} /\ (IF e.sub = None THEN st.cfg.dsub ELSE e.sub) # "" THEN Exc("TypeError")
                  ELSE Done)
      [] e.op = "iter" -> R(st, Val(InOrder(st.rt, 1..Len(st.rt))))
Obs(st) == 0

----------------------------------------------------------------------------
(* Properties of the specification                                         *)
StateInv(st) ==
    \* the match and build orders are strict total orders
    /\ \A i, j \in 1..Len(st.rt) : i # j => (Before(st.rt, i, j) # Before(st.rt, j, i))
    /\ \A i, j \in 1..Len(st.rt) : i # j => (BuildBefore(st.rt, i, j) # BuildBefore(st.rt, j, i))

\* values a converter can yield, hence the ones building has to preserve
Producible(c, v) ==
    CASE c.k = "string" -> v.t = "s" /\ Len(v.v) >= c.min /\ (c.max = -1 \/ Len(v.v) <= c.max) /\ ~Contains(v.v, "/")
      [] c.k = "any" -> v.t = "s" /\ v.v \in Range(c.items)
      [] c.k = "path" -> v.t = "s" /\ v.v # "" /\ Ch(v.v, 1) # "/" /\ ~Contains(v.v, "\n")
      [] c.k = "int" -> v.t = "i" /\ InBounds(c, v.v, "0") /\ (c.fix = 0 \/ Len(v.v) <= c.fix)
      [] c.k = "float" -> v.t = "f" /\ InBounds(c, IntPart(v.v), FracPart(v.v))
      [] c.k = "uuid" -> v.t = "u"
\* every variable is followed by "/" (or ends the pattern), at most one path variable and it comes last
Separated(r) ==
    \A i \in 1..Len(r.toks) : r.toks[i].v =>
        /\ i < Len(r.toks) => (~r.toks[i + 1].v /\ Ch(r.toks[i + 1].s, 1) \in {"/", "|"})
        /\ i > 1 => (~r.toks[i - 1].v /\ EndsWith(r.toks[i - 1].s, "/")) \/ i = 1
        /\ r.toks[i].c.k = "path" => (i = Len(r.toks) /\ r.leaf /\ r.strict)
BuildInverts(st, e, r) ==
    LET vals == PairMap(e.vals)
        S == BuildChoice(st, e.ep, vals)
    IN S # {} =>
       LET i == FirstBuild(st.rt, S)
           rr == st.rt[i]
           want == Merge([n \in rr.vars |-> vals[n]], rr.defs)
           text == MatchText(st, Arrive(st, st.bind, r.ret.v.url),
                             UnquoteUrl(From(PathIn(r.ret.v.url), Len(Script(st.bind))), st.cfg.cs))
       IN (~rr.bo /\ ~rr.alias /\ Separated(rr) /\ DOMAIN want = rr.args
           /\ OnSite(st, st.bind, r.ret.v.url)
           /\ \A n \in rr.vars : Producible(ConvOf(rr, n), vals[n]))
          => Outcome(st.cfg, rr, text) = [k |-> "ok", vals |-> want]

\* routing by itself (no explicit target) never leaves scheme, server and script root
StaysOnSite(st, bind, m) ==
    LET relative(t) == t = None \/ (~StartsWith(t, "http") /\ ~StartsWith(t, "/"))
    IN (m.k = "redirect" /\ bind.scheme # "" /\ \A i \in 1..Len(st.rt) : relative(st.rt[i].redir))
       => OnSite(st, bind, m.v)
\* redirects that routing decides itself never loop
\* (except through an alias declared for the very URLs it covers itself)
AliasOfItself(st, url) ==
    LET text == MatchText(st, Arrive(st, st.bind, url), UnquoteUrl(From(PathIn(url), Len(Script(st.bind))), st.cfg.cs))
    IN \E i \in 1..Len(st.rt) : st.rt[i].alias /\ Outcome(st.cfg, st.rt[i], text).k \in {"alias", "slash"}
Loops(ret) == \E i, j \in 1..Len(ret.v.hops) : i # j /\ ret.v.hops[i] = ret.v.hops[j]
StepInv(st, e, r) ==
    CASE e.op = "match" -> StaysOnSite(st, st.bind, r.ret)
      [] e.op = "roundtrip" -> r.ret.k = "exc" \/ BuildInverts(st, e, r)
      [] e.op = "follow" ->
            (\A i \in 1..Len(st.rt) : st.rt[i].redir = None) =>
                \/ ~Loops(r.ret) /\ Len(r.ret.v.hops) < MaxHops
                \/ AliasOfItself(st, r.ret.v.hops[Len(r.ret.v.hops)])
      [] OTHER -> TRUE
=============================================================================
