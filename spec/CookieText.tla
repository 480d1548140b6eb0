----------------------------- MODULE CookieText ----------------------------
(* Cookies in header text.                                                  *)
EXTENDS Calendar, Bytes, Url, HttpText

Legal == AlnumSet \union CharSet("!#$%&'*+-.^_`|~:")
Oct3(n) == Ch("01234567", (n \div 64) + 1) \o Ch("01234567", ((n \div 8) % 8) + 1) \o Ch("01234567", (n % 8) + 1)
QuoteOctet(n) ==
    LET c == IF n < 128 THEN PointText(n) ELSE "" IN
    IF n < 32 \/ n > 126 \/ c \in {",", ";"} THEN "\\" \o Oct3(n)
    ELSE IF c \in {"\"", "\\"} THEN "\\" \o c ELSE c
RECURSIVE QuoteOctets(_, _)
QuoteOctets(b, i) == IF i > Len(b) THEN "" ELSE QuoteOctet(b[i]) \o QuoteOctets(b, i + 1)
CookieQuote(v, charset) == IF AllIn(v, Legal) THEN v ELSE "\"" \o QuoteOctets(EncodeAs(v, charset), 1) \o "\""

\* octets of a (possibly quoted) value in a header
OctDigit == [c \in CharSet("01234567") |-> DigitVal[c]]
IsOctal(s, i) == i + 3 <= Len(s) /\ Ch(s, i + 1) \in CharSet("0123") /\ Ch(s, i + 2) \in CharSet("01234567") /\ Ch(s, i + 3) \in CharSet("01234567")
RECURSIVE UnquoteOctets(_, _, _)
UnquoteOctets(s, i, wire) ==
    IF i > Len(s) THEN <<>>
    ELSE IF Ch(s, i) # "\\" THEN EncodeAs(Ch(s, i), wire) \o UnquoteOctets(s, i + 1, wire)
    ELSE IF IsOctal(s, i) THEN <<64 * OctDigit[Ch(s, i + 1)] + 8 * OctDigit[Ch(s, i + 2)] + OctDigit[Ch(s, i + 3)]>> \o UnquoteOctets(s, i + 4, wire)
    ELSE IF i < Len(s) THEN EncodeAs(Ch(s, i + 1), wire) \o UnquoteOctets(s, i + 2, wire)
    ELSE EncodeAs("\\", wire)
CookieUnquote(s, wire) ==
    IF Len(s) >= 2 /\ Ch(s, 1) = "\"" /\ Ch(s, Len(s)) = "\"" THEN UnquoteOctets(Mid(s, 2, Len(s) - 1), 1, wire) ELSE EncodeAs(s, wire)
Text(b, charset) == IF charset = "latin-1" THEN DecodeLatin1(b) ELSE DecodeUtf8(b)

Attributes == {"expires", "path", "comment", "max-age", "secure", "httponly", "version"}
\* position of the semicolon that ends the value which starts at i
ValueEnd(s, i) ==
    LET q == IF i <= Len(s) /\ Ch(s, i) = "\"" THEN QuoteEnd(s, i + 1) ELSE 0
        e == IF q # 0 THEN SkipW(s, q) ELSE 0
    IN IF q # 0 /\ (e > Len(s) \/ Ch(s, e) = ";") THEN e ELSE SkipNot(s, i, {";"})
RECURSIVE CookieFrom(_, _)
CookieFrom(s, i) ==
    IF i > Len(s) THEN <<>>
    ELSE LET e == SkipNot(s, i, {"=", ";"}) IN
         IF e > Len(s) THEN <<>>
         ELSE IF e = i \/ Ch(s, e) = ";" THEN CookieFrom(s, e + 1)
         ELSE LET a == SkipW(s, e + 1)
                  z == ValueEnd(s, a)
              IN << <<Strip(Mid(s, i, e - 1), White), Strip(Mid(s, a, z - 1), White)>> >> \o CookieFrom(s, z + 1)
ParseCookie(s, wire, charset) ==
    LET q == SelectSeq(CookieFrom(s, 1), LAMBDA x : Lower(x[1]) \notin Attributes)
        Put(d, x) == DictPut(d, Text(CookieUnquote(x[1], wire), charset), Text(CookieUnquote(x[2], wire), charset))
        F[i \in 0..Len(q)] == IF i = 0 THEN <<>> ELSE Put(F[i - 1], q[i])
    IN F[Len(q)]

\* the Set-Cookie header.  a.domain, a.path: text or None; a.expires: moment or NoDate;
\* a.age: seconds or -1; "SYNC" stands for the date that many seconds from now
Domain(d) == UpTo(d, SkipNot(d, 1, {":"}) - 1)
BadDomain(d) == d # None /\ ~Contains(Domain(d), ".")
\* plain form of the path; a semicolon would start another attribute
PathKeep == CharSet("/:%@!$&'()*+,=")
TailKeep == PathKeep \union CharSet("?[]")
PathText(p) ==
    LET q == Find(p, "?")
    IN IF q = 0 THEN QuoteUrl(p, PathKeep, "utf-8")
       ELSE QuoteUrl(UpTo(p, q - 1), PathKeep, "utf-8") \o (IF q = Len(p) THEN "" ELSE "?" \o QuoteUrl(From(p, q + 1), TailKeep, "utf-8"))
SetCookie(k, v, a, charset) ==
    Join(<<k \o "=" \o CookieQuote(v, charset)>>
         \o (IF a.domain = None THEN <<>> ELSE <<"Domain=" \o CookieQuote(Domain(a.domain), "utf-8")>>)
         \o (IF a.expires # NoDate THEN <<"Expires=" \o CookieDate(a.expires)>> ELSE IF a.age >= 0 THEN <<"Expires=SYNC">> ELSE <<>>)
         \o (IF a.age >= 0 THEN <<"Max-Age=" \o NatText(a.age)>> ELSE <<>>)
         \o (IF a.secure THEN <<"Secure">> ELSE <<>>) \o (IF a.httponly THEN <<"HttpOnly">> ELSE <<>>)
         \o (IF a.path = None THEN <<>> ELSE <<"Path=" \o PathText(a.path)>>), "; ")
=============================================================================
