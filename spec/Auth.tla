-------------------------------- MODULE Auth --------------------------------
(* Credentials a client sends and challenges a server builds.                *)
EXTENDS AuthText, Bytes

(* ---- base 64 ------------------------------------------------------------*)
B64Chars == "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
B64(n) == Ch(B64Chars, n + 1)
RECURSIVE B64Text(_)
B64Text(b) ==
    IF b = <<>> THEN ""
    ELSE IF Len(b) = 1 THEN B64(b[1] \div 4) \o B64((b[1] % 4) * 16) \o "=="
    ELSE IF Len(b) = 2 THEN B64(b[1] \div 4) \o B64((b[1] % 4) * 16 + (b[2] \div 16)) \o B64((b[2] % 16) * 4) \o "="
    ELSE B64(b[1] \div 4) \o B64((b[1] % 4) * 16 + (b[2] \div 16)) \o B64((b[2] % 16) * 4 + (b[3] \div 64)) \o B64(b[3] % 64) \o B64Text(SubSeq(b, 4, Len(b)))
B64Val == TLCEval([c \in CharSet(B64Chars) |-> CHOOSE n \in 0..63 : B64(n) = c])
V64(s, i) == IF Ch(s, i) = "=" THEN 0 ELSE B64Val[Ch(s, i)]
\* well-formed text only
WellFormed64(s) ==
    /\ Len(s) % 4 = 0
    /\ LET t == RStrip(s, {"="}) IN Len(s) - Len(t) <= 2 /\ AllIn(t, CharSet(B64Chars))
RECURSIVE B64Bytes(_)
B64Bytes(s) ==
    IF s = "" THEN <<>>
    ELSE LET n == ((V64(s, 1) * 64 + V64(s, 2)) * 64 + V64(s, 3)) * 64 + V64(s, 4)
             q == <<n \div 65536, (n \div 256) % 256, n % 256>>
         IN (IF Ch(s, 3) = "=" THEN SubSeq(q, 1, 1) ELSE IF Ch(s, 4) = "=" THEN SubSeq(q, 1, 2) ELSE q) \o B64Bytes(From(s, 5))

(* ---- what a client sends ------------------------------------------------*)
Basic(user, pass, cs) == "Basic " \o B64Text(EncodeAs(user, cs) \o <<58>> \o EncodeAs(pass, cs))
\* how each parameter is written: plain, quoted, or every character escaped
Escaped(v) == "\"" \o MapText(v, LAMBDA c : "\\" \o c) \o "\""
Written(p) == p[1] \o "=" \o (CASE p[3] = "plain" -> p[2] [] p[3] = "quoted" -> Quoted(p[2]) [] p[3] = "escaped" -> Escaped(p[2]))
Digest(params, scheme, sep) == scheme \o " " \o Join([i \in 1..Len(params) |-> Written(params[i])], sep)

(* ---- what the server makes of it ----------------------------------------*)
Nobody == None
Needed == {"username", "realm", "nonce", "uri", "response"}
Cred(type, d) == [type |-> type, d |-> DictSet(d), qop |-> IF HasKey(d, "qop") /\ Value(d, "qop") # None THEN ParseList(Value(d, "qop")) ELSE <<>>]
Credentials(text) ==
    LET t == Strip(text, White)
        a == SkipNot(t, 1, White)
        type == Lower(UpTo(t, a - 1))
        info == From(t, SkipW(t, a))
        d == ParseDict(info)
        b == B64Bytes(info)
        colon == FirstIdx(b, LAMBDA x : x = 58)
    IN IF t = "" \/ info = "" THEN [type |-> Nobody]
       ELSE IF type = "basic" THEN
            (IF ~WellFormed64(info) THEN [type |-> Nobody]
             ELSE IF colon = 0 THEN [type |-> Nobody]
             ELSE Cred("basic", << <<"username", DecodeLatin1(SubSeq(b, 1, colon - 1))>>, <<"password", DecodeLatin1(SubSeq(b, colon + 1, Len(b)))>> >>))
       ELSE IF type # "digest" \/ \E k \in Needed : ~HasKey(d, k) THEN [type |-> Nobody]
       ELSE IF HasKey(d, "qop") /\ \E k \in {"nc", "cnonce"} : ~HasKey(d, k) \/ Value(d, IF HasKey(d, k) THEN k ELSE "qop") \in {None, ""} THEN [type |-> Nobody]
       ELSE Cred("digest", d)
HeaderOf(e) ==
    CASE e.op = "basic" -> Basic(e.user, e.pass, e.cs)
      [] e.op = "digest" -> Digest(e.params, e.scheme, e.sep)
      [] e.op = "raw" -> e.text

Challenge(e) ==
    CASE e.op = "set_basic" -> [type |-> "basic", d |-> << <<"realm", e.realm>> >>]
      [] e.op = "set_digest" ->
            [type |-> "digest",
             d |-> << <<"realm", e.realm>>, <<"nonce", e.nonce>>, <<"qop", DumpList(e.q)>> >>
                   \o (IF e.stale THEN << <<"stale", "TRUE">> >> ELSE <<>>)
                   \o (IF e.opaque = None THEN <<>> ELSE << <<"opaque", e.opaque>> >>)
                   \o (IF e.algorithm = None THEN <<>> ELSE << <<"algorithm", e.algorithm>> >>)]
      [] e.op = "challenge" -> [type |-> e.type, d |-> e.d]
Both(a) == [text |-> DumpAuth(a), type |-> a.type, d |-> DictSet(a.d)]

InitState(c) == c
InitRet(c) == Done
Step(st, e) ==
    CASE e.op \in {"basic", "digest", "raw"} -> R(st, Val([text |-> HeaderOf(e), got |-> Credentials(HeaderOf(e))]))
      [] e.op \in {"set_basic", "set_digest", "challenge"} -> R(st, Val(Both(Challenge(e))))
Obs(st) == 0

\* C24
Octets(s, cs) == DecodeLatin1(EncodeAs(s, cs))
StateInv(st) == TRUE
StepInv(st, e, r) ==
    LET v == r.ret.v IN
    /\ e.op = "basic" /\ ~Contains(e.user, ":") =>
        v.got.type = "basic" /\ v.got.d = DictSet(<< <<"username", Octets(e.user, e.cs)>>, <<"password", Octets(e.pass, e.cs)>> >>)
    /\ e.op = "digest" =>
        LET d == [i \in 1..Len(e.params) |-> <<e.params[i][1], e.params[i][2]>>] IN
        v.got = IF (\A k \in Needed : HasKey(d, k)) /\ (HasKey(d, "qop") => \A k \in {"nc", "cnonce"} : HasKey(d, k) /\ Value(d, k) # "")
                THEN Cred("digest", d) ELSE [type |-> Nobody]
    /\ e.op \in {"set_basic", "set_digest", "challenge"} =>
        LET p == ParseAuth(v.text) IN p.type = Lower(v.type) /\ DictSet(p.d) = v.d
=============================================================================
