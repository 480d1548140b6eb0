------------------------------- MODULE Hosts -------------------------------
(* The host a request names, whether it is trusted, and the URL it asked for.*)
EXTENDS UrlForms

\* xfh, host: <<>> when the header is absent
HostOf(env) ==
    IF env.xfh # <<>> THEN LET t == env.xfh[1] c == Find(t, ",") IN Strip(IF c = 0 THEN t ELSE UpTo(t, c - 1), {" ", "\t"})
    ELSE IF env.host # <<>> THEN env.host[1]
    ELSE IF <<env.scheme, env.port>> \in {<<"http", "80">>, <<"https", "443">>} THEN env.name
    ELSE env.name \o ":" \o env.port
Digits(s) == \A i \in 1..Len(s) : Ch(s, i) \in CharSet("0123456789")
\* without the port
NameOf(h) ==
    LET e == IF StartsWith(h, "[") THEN Find(h, "]") ELSE 0
        c == RFind(h, ":")
    IN IF e > 0 /\ e < Len(h) /\ Ch(h, e + 1) = ":" /\ Digits(From(h, e + 2)) THEN UpTo(h, e)
       ELSE IF e = 0 /\ c > 0 /\ c = Find(h, ":") /\ Digits(From(h, c + 1)) THEN UpTo(h, c - 1)
       ELSE h
\* no international label but those of the table
Encodable(h) == Ascii(h) \/ LET q == Split(h, ".") IN \A i \in 1..Len(q) : Ascii(q[i]) \/ q[i] \in DOMAIN CharTab.idna_a
NotInHost == CharSet("/?#@\\") \union Blank \union {CharTab.del, CharTab.fullslash}
Trusted(h, refs) ==
    /\ h # ""
    /\ LET n == NameOf(h) IN
       /\ ~AnyIn(n, NotInHost)
       /\ AnyIn(n, CharSet("[]:")) => StartsWith(n, "[") /\ Find(n, "]") = Len(n) /\ RFind(n, "[") = 1
       /\ Encodable(n)
       /\ \E i \in 1..Len(refs) :
            LET dot == StartsWith(refs[i], ".")
                r == HostUri(NameOf(IF dot THEN From(refs[i], 2) ELSE refs[i]))
            IN HostUri(n) = r \/ (dot /\ EndsWith(HostUri(n), "." \o r))
Refused == Exc("SecurityError")
\* cs: how the texts of the environment are written as octets
Build(env, h, what) ==
    LET start == env.scheme \o "://" \o h
        script == RStrip(QuoteUrl(env.script, {"/"}, env.cs), {"/"})
        path == QuoteUrl(LStrip(env.path, {"/"}), {"/"}, env.cs)
        q == QuoteUrl(env.query, FixSafe, env.cs)
    IN CASE what = "host" -> UriToIri(start \o "/")
         [] what = "root" -> UriToIri(start \o script \o "/")
         [] what = "base" -> UriToIri(start \o script \o "/" \o path)
         [] what = "url" -> UriToIri(start \o script \o "/" \o path \o (IF q = "" THEN "" ELSE "?" \o q))

InitState(c) == c
InitRet(c) == Done
Step(st, e) ==
    LET h == HostOf(st.env)
        ok == ~st.limited \/ Trusted(h, st.refs)
    IN CASE e.op = "host" -> R(st, IF ok THEN Val(h) ELSE Refused)
         [] e.op = "part" -> R(st, IF ok THEN Build(st.env, h, e.what) ELSE Refused)
         [] e.op = "trusted" -> R(st, Val(Trusted(e.host, st.refs)))
Obs(st) == 0

\* C19
HostClean(n) == n # "" /\ \A i \in 1..Len(n) : Ch(n, i) \in AlnumSet \union CharSet("-.")
StateInv(st) == TRUE
StepInv(st, e, r) ==
    LET h == HostOf(st.env)
        n == NameOf(h)
        u == IF r.ret.k = "val" THEN Apart(r.ret.v) ELSE Bad
        clean == HostClean(n) /\ (h = n \/ PortOk(From(h, Len(n) + 2)))
    IN
    /\ e.op = "trusted" /\ r.ret.v =>
        \* the URL with that host leads to a trusted name and nowhere else
        LET a == Apart("http://" \o e.host \o "/") IN
        a # Bad => \E i \in 1..Len(st.refs) :
            LET dot == StartsWith(st.refs[i], ".")
                ref == Apart("http://" \o (IF dot THEN From(st.refs[i], 2) ELSE st.refs[i]) \o "/")
            IN ref = Bad \/ HostUri(a.host) = HostUri(ref.host) \/ (dot /\ EndsWith(HostUri(a.host), "." \o HostUri(ref.host)))
    /\ e.op = "part" /\ clean /\ r.ret.k = "val" =>
        /\ u # Bad
        /\ u.scheme = st.env.scheme /\ u.user = "" /\ u.pass = "" /\ u.frag = ""
        /\ HostUri(u.host) = HostUri(LowerHost(n)) \/ ~Ascii(u.host)
        /\ (e.what = "host" => u.path = "/" /\ u.query = "")
        /\ (e.what = "root" /\ st.env.cs = "utf-8" => EncodeUtf8(RStrip(st.env.script, {"/"}) \o "/") = DecodeEsc(u.path, {}, 1))
        /\ (e.what \in {"base", "url"} /\ st.env.cs = "utf-8" =>
                EncodeUtf8(RStrip(st.env.script, {"/"}) \o "/" \o LStrip(st.env.path, {"/"})) = DecodeEsc(u.path, {}, 1))
        /\ (e.what # "url" => u.query = "")
        \* a query in plain characters means what it meant
        /\ (e.what = "url" /\ Plain("http://h/?" \o st.env.query) /\ ValidUtf8(DecodeEsc(st.env.query, {}, 1)) =>
                PartFrom(u.query, CodesOf(":&=+$,"), 1) = PartFrom(st.env.query, CodesOf(":&=+$,"), 1))
=============================================================================
