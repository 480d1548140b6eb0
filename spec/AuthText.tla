------------------------------ MODULE AuthText ------------------------------
(* Challenges as header text: [type, d], d a dictionary of parameters.       *)
EXTENDS HttpText

HasKey(d, k) == \E i \in 1..Len(d) : d[i][1] = k
Value(d, k) == d[CHOOSE i \in 1..Len(d) : d[i][1] = k][2]
NoAuth == [type |-> None, d |-> <<>>]
MustQuote == {"domain", "nonce", "opaque", "realm", "qop"}
TitleOf(t) ==
    CASE t = "basic" -> "Basic" [] t = "digest" -> "Digest" [] t = "bearer" -> "Bearer" [] t = "x-foo" -> "X-Foo" [] t = "negotiate" -> "Negotiate"
EffType(a) == IF a.type = None /\ a.d # <<>> THEN "basic" ELSE a.type
DumpAuth(a) ==
    TitleOf(EffType(a)) \o " " \o
    Join([i \in 1..Len(a.d) |-> IF a.d[i][2] = None THEN a.d[i][1]
            ELSE a.d[i][1] \o "=" \o (IF a.d[i][1] \in MustQuote THEN Quoted(a.d[i][2]) ELSE Quote(a.d[i][2]))], ", ")
ParseAuth(s) ==
    LET t == Strip(s, White)
        a == SkipNot(t, 1, White)
    IN IF t = "" THEN NoAuth
       ELSE [type |-> Lower(UpTo(t, a - 1)), d |-> ParseDict(From(t, SkipW(t, a)))]
=============================================================================
