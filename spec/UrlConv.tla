------------------------------ MODULE UrlConv ------------------------------
(* iri_to_uri, uri_to_iri and url_fix as operations: see UrlForms.           *)
EXTENDS UrlForms

InitState(c) == c
InitRet(c) == Done
Both(f(_), g(_), s) == LET r == f(s) IN IF r.k = "exc" THEN r ELSE LET q == g(r.v) IN IF q.k = "exc" THEN q ELSE Val(<<r.v, q.v>>)
Step(st, e) ==
    CASE e.op = "to_uri" -> R(st, IriToUri(e.text))
      [] e.op = "to_iri" -> R(st, UriToIri(e.text))
      [] e.op = "to_iri_as" -> R(st, UriToIriAs(e.text, e.errors))
      [] e.op = "uri_iri_uri" -> R(st, Both(UriToIri, IriToUri, e.text))
      [] e.op = "iri_uri_iri" -> R(st, Both(IriToUri, UriToIri, e.text))
      [] e.op = "fix" -> R(st, UrlFix(e.text, e.charset))
Obs(st) == 0

\* C22
Shown(s) == ~Contains(s, "<")      \* no code point without a name in it
StateInv(st) == TRUE
StepInv(st, e, r) ==
    r.ret.k = "val" =>
    /\ e.op = "to_uri" =>
        /\ Ascii(r.ret.v)
        /\ ~Contains(Apart(e.text).frag, "#") => Meaning(r.ret.v) = Meaning(e.text)
        /\ IriToUri(r.ret.v) = r.ret
        /\ Plain(e.text) => Together(Apart(e.text)) = r.ret.v
    /\ e.op = "to_iri" /\ CleanText(e.text) /\ NoStrayPct(e.text) /\ Shown(r.ret.v) =>
        /\ Meaning(r.ret.v) = Meaning(e.text)
        /\ Ascii(Apart(e.text).host) => UriToIri(r.ret.v) = r.ret
    \* nothing is left out or refused in what is well formed
    /\ e.op = "to_iri_as" /\ CleanText(e.text) => r.ret = UriToIri(e.text)
    /\ e.op = "uri_iri_uri" /\ CleanText(e.text) /\ NoStrayPct(e.text) /\ Shown(r.ret.v[1]) =>
        /\ Meaning(r.ret.v[2]) = Meaning(e.text)
        /\ Ascii(Apart(e.text).host) /\ ~AnyIn(e.text, Blank \union {CharTab.del}) => UriToIri(r.ret.v[2]) = Val(r.ret.v[1])
=============================================================================
