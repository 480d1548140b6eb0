------------------------------ MODULE UrlForms -----------------------------
(* International and plain forms of URLs: iri_to_uri, uri_to_iri, url_fix.   *)
(* Meaning(u) says what a URL stands for; the conversions keep it.           *)
EXTENDS Url, Bytes

Controls == {c \in DOMAIN CodeTab : CodeTab[c] < 32 \/ CodeTab[c] = 127}
Blank == (Controls \ {CharTab.del}) \union {" "}
Ascii(s) == \A i \in 1..Len(s) : CodeTab[Ch(s, i)] < 128
SchemeChars == AlnumSet \union CharSet("+-.")
UsesNetloc == {"ftp", "http", "gopher", "nntp", "telnet", "imap", "wais", "file", "mms", "https", "shttp", "snews", "prospero", "rtsp", "rtsps", "rtspu",
               "rsync", "svn", "svn+ssh", "sftp", "nfs", "git", "git+ssh", "ws", "wss", "itms-services"}
Bad == [scheme |-> "!"]

(* ---- taking a URL apart and putting it together -------------------------*)
FirstOf(s, i, cs) == LET S == {k \in i..Len(s) : Ch(s, k) \in cs} IN IF S = {} THEN Len(s) + 1 ELSE MinOf(S)
\* host and port of a netloc: <<host, port text>>
HostPort(n) ==
    LET at == RFind(n, "@")
        h == From(n, at + 1)
        b == Find(h, "[")
    IN IF b > 0
       THEN LET e == FirstOf(h, b + 1, {"]"})
                rest == From(h, e + 1)
                c == Find(rest, ":")
            IN <<Mid(h, b + 1, e - 1), IF c = 0 THEN "" ELSE From(rest, c + 1)>>
       ELSE LET c == Find(h, ":") IN IF c = 0 THEN <<h, "">> ELSE <<UpTo(h, c - 1), From(h, c + 1)>>
UserPass(n) ==
    LET at == RFind(n, "@")
        u == UpTo(n, at - 1)
        c == Find(u, ":")
    IN IF at = 0 THEN <<"", "">> ELSE IF c = 0 THEN <<u, "">> ELSE <<UpTo(u, c - 1), From(u, c + 1)>>
\* what follows a percent sign is a zone, which keeps its case
LowerHost(h) == LET i == FirstOf(h, 1, {"%"}) IN MapText(Lower(UpTo(h, i - 1)), LAMBDA c : IF c = CharTab.E_acute THEN CharTab.e_acute ELSE c) \o From(h, i)
PortOk(p) == p = "" \/ (IsNat(p) /\ Len(p) <= 6 /\ NatOf(p) <= 65535)
\* Bad if it is none
Apart(text) ==
    LET s == LStrip(MapText(LStrip(text, Blank), LAMBDA c : IF c \in {"\t", "\r", "\n"} THEN "" ELSE c), {})
        c == Find(s, ":")
        hasS == c > 1 /\ Ch(s, 1) \in AlphaSet /\ \A i \in 1..(c - 1) : Ch(s, i) \in SchemeChars
        scheme == IF hasS THEN Lower(UpTo(s, c - 1)) ELSE ""
        r1 == IF hasS THEN From(s, c + 1) ELSE s
        hasN == StartsWith(r1, "//")
        e == IF hasN THEN FirstOf(r1, 3, {"/", "?", "#"}) ELSE 1
        netloc == IF hasN THEN Mid(r1, 3, e - 1) ELSE ""
        r2 == From(r1, e)
        f == Find(r2, "#")
        r3 == IF f = 0 THEN r2 ELSE UpTo(r2, f - 1)
        q == Find(r3, "?")
        hp == HostPort(netloc)
        up == UserPass(netloc)
        info == From(netloc, RFind(netloc, "@") + 1)
        close == Find(info, "]")
        badBr == Contains(netloc, "[") /\ (Find(info, "[") # 1 \/ close = 0 \/ (close < Len(info) /\ Ch(info, close + 1) # ":"))
    IN IF Contains(netloc, CharTab.fullslash) \/ badBr \/ Contains(netloc, "[") # Contains(netloc, "]") \/ ~PortOk(hp[2]) THEN Bad
       ELSE [scheme |-> scheme, host |-> LowerHost(hp[1]), port |-> hp[2], user |-> up[1], pass |-> up[2],
             path |-> IF q = 0 THEN r3 ELSE UpTo(r3, q - 1), query |-> IF q = 0 THEN "" ELSE From(r3, q + 1),
             frag |-> IF f = 0 THEN "" ELSE From(r2, f + 1)]
Netloc(u) ==
    (IF u.user = "" /\ u.pass = "" THEN "" ELSE u.user \o (IF u.pass = "" THEN "" ELSE ":" \o u.pass) \o "@")
    \o (IF Contains(u.host, ":") THEN "[" \o u.host \o "]" ELSE u.host)
    \o (IF u.port = "" THEN "" ELSE ":" \o NatText(NatOf(u.port)))
Together(u) ==
    LET n == Netloc(u)
        p == IF n # "" THEN (IF u.path # "" /\ ~StartsWith(u.path, "/") THEN "/" \o u.path ELSE u.path)
             ELSE IF StartsWith(u.path, "//") THEN "//" \o u.path
             ELSE IF u.scheme \in UsesNetloc THEN "//" \o (IF u.path # "" /\ ~StartsWith(u.path, "/") THEN "/" \o u.path ELSE u.path)
             ELSE u.path
    IN (IF u.scheme = "" THEN "" ELSE u.scheme \o ":") \o (IF n = "" THEN "" ELSE "//" \o n) \o p
       \o (IF u.query = "" THEN "" ELSE "?" \o u.query) \o (IF u.frag = "" THEN "" ELSE "#" \o u.frag)

(* ---- international to plain ---------------------------------------------*)
IdnaA(l) == IF Ascii(l) THEN l ELSE CharTab.idna_a[l]
IdnaU(l) == IF l \in DOMAIN CharTab.idna_u THEN CharTab.idna_u[l] ELSE l
\* the labels of the host are in the table
KnownHost(s) == LET u == Apart(s) IN u = Bad \/ LET q == Split(u.host, ".") IN \A i \in 1..Len(q) : Ascii(q[i]) \/ q[i] \in DOMAIN CharTab.idna_a
HostUri(h) == IF Ascii(h) THEN h ELSE LET q == Split(h, ".") IN Join([i \in 1..Len(q) |-> IdnaA(q[i])], ".")
HostIri(h) == IF ~Ascii(h) THEN h ELSE LET q == Split(h, ".") IN Join([i \in 1..Len(q) |-> IdnaU(q[i])], ".")
SubDelims == CharSet("!$&'()*+,;=")
UserSafe == CharSet("/:%") \union SubDelims
PathSafe == CharSet("/:%@") \union SubDelims
TailSafe == CharSet("/:%@?[]") \union SubDelims
Q8(s, safe) == QuoteUrl(s, safe, "utf-8")
NetUri(u) == [u EXCEPT !.host = HostUri(@), !.user = Q8(@, UserSafe), !.pass = Q8(@, UserSafe)]
IriToUri(s) ==
    LET u == Apart(s)
    IN IF u = Bad THEN Exc("ValueError")
       ELSE Val(Together([NetUri(u) EXCEPT !.path = Q8(@, PathSafe), !.query = Q8(@, TailSafe), !.frag = Q8(@, TailSafe)]))

(* ---- plain to international ---------------------------------------------*)
IsHex(s, i) == i + 2 <= Len(s) /\ Ch(s, i) = "%" /\ Ch(s, i + 1) \in DOMAIN HexVal /\ Ch(s, i + 2) \in DOMAIN HexVal
HexAt(s, i) == 16 * HexVal[Ch(s, i + 1)] + HexVal[Ch(s, i + 2)]
CodesOf(s) == {CodeTab[Ch(s, i)] : i \in 1..Len(s)}
\* octets with the escapes decoded, except those of the characters in unsafe
RECURSIVE DecodeEsc(_, _, _)
DecodeEsc(s, unsafe, i) ==
    IF i > Len(s) THEN <<>>
    ELSE IF IsHex(s, i) /\ HexAt(s, i) \notin unsafe THEN <<HexAt(s, i)>> \o DecodeEsc(s, unsafe, i + 3)
    ELSE Utf8Of[Ch(s, i)] \o DecodeEsc(s, unsafe, i + 1)
Always == (0..32) \union {37, 127}
PathUnsafe == Always \union CodesOf("/;?#")
TailUnsafe == Always \union CodesOf(";/?:@&=+,$#")
UserUnsafe == Always \union CodesOf("/:@?#[]")
\* how octets that are no UTF-8 are shown: replaced, left out, or not at all
DecodeAs(b, errors) == IF errors = "ignore" THEN ReplaceAll(DecodeUtf8(b), CharTab.repl, "") ELSE DecodeUtf8(b)
UriToIriAs(s, errors) ==
    LET u == Apart(s)
        us == DecodeEsc(u.user, UserUnsafe, 1)
        ps == DecodeEsc(u.pass, UserUnsafe, 1)
        \* without scheme and host a colon would make a scheme
        pu == IF u.scheme = "" /\ Netloc(u) = "" THEN PathUnsafe \union CodesOf(":") ELSE PathUnsafe
        path == DecodeEsc(u.path, pu, 1) query == DecodeEsc(u.query, TailUnsafe, 1) frag == DecodeEsc(u.frag, TailUnsafe, 1)
    IN IF u = Bad THEN Exc("ValueError")
       ELSE IF ~ValidUtf8(us) \/ ~ValidUtf8(ps) THEN Exc("UnicodeDecodeError")
       ELSE IF errors = "strict" /\ ~(ValidUtf8(path) /\ ValidUtf8(query) /\ ValidUtf8(frag)) THEN Exc("UnicodeDecodeError")
       ELSE Val(Together([u EXCEPT !.host = HostIri(@), !.user = DecodeUtf8(us), !.pass = DecodeUtf8(ps),
                          !.path = DecodeAs(path, errors), !.query = DecodeAs(query, errors), !.frag = DecodeAs(frag, errors)]))
UriToIri(s) == UriToIriAs(s, "replace")

(* ---- repairing what a user typed ----------------------------------------*)
FixSafe == CharSet(":&%=+$!*'(),")
QuotePlusSafe(s, cs) == MapText(s, LAMBDA c : IF c = " " THEN "+" ELSE QuoteUrl(c, FixSafe, cs))
IsAlpha(c) == c \in AlphaSet \union {CharTab.e_acute, CharTab.E_acute, CharTab.sharp_s, CharTab.cjk, CharTab.ydiaer, CharTab.ffi}
UrlFix(text, cs) ==
    LET s == ReplaceAll(text, "\\", "/")
        win == StartsWith(s, "file://") /\ Len(s) >= 10 /\ IsAlpha(Ch(s, 8)) /\ Mid(s, 9, 10) \in {":/", "|/"}
        u == Apart(IF win THEN "file:///" \o From(s, 8) ELSE s)
    IN IF u = Bad THEN Exc("ValueError")
       ELSE Val(Together([NetUri(u) EXCEPT !.path = QuoteUrl(@, CharSet("/%+$!*'(),"), cs), !.query = QuotePlusSafe(@, cs), !.frag = QuotePlusSafe(@, cs)]))

(* ---- what a URL stands for ----------------------------------------------*)
\* a part: its octets, with the delimiters of the part marked (negative)
RECURSIVE PartFrom(_, _, _)
PartFrom(s, delims, i) ==
    IF i > Len(s) THEN <<>>
    ELSE IF IsHex(s, i) THEN <<HexAt(s, i)>> \o PartFrom(s, delims, i + 3)
    ELSE IF CodeTab[Ch(s, i)] \in delims THEN <<0 - CodeTab[Ch(s, i)]>> \o PartFrom(s, delims, i + 1)
    ELSE Utf8Of[Ch(s, i)] \o PartFrom(s, delims, i + 1)
Meaning(s) ==
    LET u == Apart(s)
    IN IF u = Bad THEN <<"bad">>
       ELSE <<u.scheme, PartFrom(u.user, {}, 1), PartFrom(u.pass, {}, 1), HostUri(u.host), IF u.port = "" THEN "" ELSE NatText(NatOf(u.port)),
              PartFrom(IF u.path = "" \/ StartsWith(u.path, "/") \/ (Netloc(u) = "" /\ u.scheme \notin UsesNetloc) THEN u.path ELSE "/" \o u.path, CodesOf("/;?#"), 1),
              PartFrom(u.query, CodesOf(";/?:@&=+,$#"), 1), PartFrom(u.frag, CodesOf(";/?:@&=+,$#"), 1)>>
\* every escape is part of well-formed text, and no relative path begins like a scheme
CleanHost(h) == \A i \in 1..Len(h) : ~Ascii(Ch(h, i)) \/ Ch(h, i) \in AlnumSet \union CharSet("-.:")
CleanText(s) == LET u == Apart(s) IN u # Bad /\ CleanHost(u.host) /\ ~AnyIn(u.user \o u.pass, CharSet("@[]")) /\ ~Contains(u.frag, "#") /\ ~(u.scheme = "" /\ Netloc(u) = "" /\ Contains(Split(u.path, "/")[1], ":")) /\ \A t \in {u.user, u.pass, u.path, u.query, u.frag} : ValidUtf8(DecodeEsc(t, {}, 1))
\* no percent sign that does not start an escape
NoStrayPct(s) == \A i \in 1..Len(s) : Ch(s, i) = "%" => IsHex(s, i)
Plain(s) == LET u == Apart(s) IN u # Bad /\ ~Contains(u.user \o u.pass, "@") /\ ~Contains(u.frag, "#") /\ Ascii(s) /\ NoStrayPct(s) /\ \A i \in 1..Len(s) : Ch(s, i) \in UrlUnreserved \union CharSet("%:/?#@") \union SubDelims
=============================================================================
