------------------------------- MODULE Errors ------------------------------
(***************************************************************************)
(* HTTP errors as exceptions: what an error says about itself (number,     *)
(* name, description, what it was made of), the errors that are another    *)
(* exception as well, and aborters, which raise the error registered for a *)
(* number.  (verktyg/exceptions.py)                                        *)
(*                                                                         *)
(* Configuration c: [classes], further classes [name, base, code, desc] of *)
(* the application, code 0 and desc None if inherited.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Str, TLC
RH == INSTANCE RespHead

B(name, base, code) == [name |-> name, base |-> base, code |-> code, desc |-> "*", also |-> None]
\* the errors there are; two of them say what bad requests say
Known == <<
    [name |-> "HTTPException", base |-> None, code |-> 0, desc |-> None, also |-> None],
    B("BadRequest", "HTTPException", 400),
    [B("ClientDisconnected", "BadRequest", 0) EXCEPT !.desc = None], [B("SecurityError", "BadRequest", 0) EXCEPT !.desc = None],
    B("Unauthorized", "HTTPException", 401), B("Forbidden", "HTTPException", 403), B("NotFound", "HTTPException", 404),
    B("MethodNotAllowed", "HTTPException", 405), B("NotAcceptable", "HTTPException", 406), B("RequestTimeout", "HTTPException", 408),
    B("Conflict", "HTTPException", 409), B("Gone", "HTTPException", 410), B("LengthRequired", "HTTPException", 411),
    B("PreconditionFailed", "HTTPException", 412), B("RequestEntityTooLarge", "HTTPException", 413),
    B("RequestURITooLarge", "HTTPException", 414), B("UnsupportedMediaType", "HTTPException", 415),
    B("RequestedRangeNotSatisfiable", "HTTPException", 416), B("ExpectationFailed", "HTTPException", 417), B("ImATeapot", "HTTPException", 418),
    B("UnprocessableEntity", "HTTPException", 422), B("PreconditionRequired", "HTTPException", 428), B("TooManyRequests", "HTTPException", 429),
    B("RequestHeaderFieldsTooLarge", "HTTPException", 431), B("InternalServerError", "HTTPException", 500),
    B("NotImplemented", "HTTPException", 501), B("BadGateway", "HTTPException", 502), B("ServiceUnavailable", "HTTPException", 503),
    B("GatewayTimeout", "HTTPException", 504), B("HTTPVersionNotSupported", "HTTPException", 505),
    [name |-> "BadRequestKeyError", base |-> "BadRequest", code |-> 0, desc |-> None, also |-> "KeyError"] >>
\* exceptions of the language, most special first
Plains == [KeyError |-> {"KeyError", "LookupError"}, LookupError |-> {"LookupError"}, ValueError |-> {"ValueError"}]

Cls(s, n) == LET i == CHOOSE i \in 1..Len(s.classes) : s.classes[i].name = n IN s.classes[i]
RECURSIVE CodeOf(_, _)
CodeOf(s, n) == IF n = None THEN 0 ELSE IF Cls(s, n).code # 0 THEN Cls(s, n).code ELSE CodeOf(s, Cls(s, n).base)
RECURSIVE DescOf(_, _)
DescOf(s, n) ==
    IF n = None THEN None
    ELSE IF Cls(s, n).desc = "*" THEN "*" \o n
    ELSE IF Cls(s, n).desc # None THEN Cls(s, n).desc
    ELSE DescOf(s, Cls(s, n).base)
RECURSIVE Ancestors(_, _)
Ancestors(s, n) ==
    IF n = None THEN {"Exception"}
    ELSE {n} \union (IF Cls(s, n).also = None THEN {} ELSE Plains[Cls(s, n).also]) \union Ancestors(s, Cls(s, n).base)
IsMethods(s, n) == "MethodNotAllowed" \in Ancestors(s, n)
RECURSIVE Wrapped(_, _)
Wrapped(s, n) == IF n = None THEN FALSE ELSE Cls(s, n).also # None \/ Wrapped(s, Cls(s, n).base)
NameOf(code) == IF code \in DOMAIN RH!Reasons THEN RH!Reasons[code] ELSE "Unknown Error"
TextOf(code) == (IF code = 0 THEN "???" ELSE IntText(code)) \o ": " \o NameOf(code)

\* an error of class n made of the arguments a: [desc, resp, methods, arg]
Made(s, n, a) ==
    LET code == CodeOf(s, n)
    IN [cls |-> n, code |-> code, name |-> NameOf(code), desc |-> IF a.desc # None THEN a.desc ELSE DescOf(s, n),
        resp |-> a.resp, methods |-> IF IsMethods(s, n) THEN a.methods ELSE None, arg |-> IF Wrapped(s, n) THEN a.arg ELSE None,
        text |-> TextOf(code), repr |-> "<" \o n \o " '" \o TextOf(code) \o "'>", isa |-> [SET |-> Ancestors(s, n)]]
Nothing == [desc |-> None, resp |-> None, methods |-> None, arg |-> None]

\* the error that stands for a number: the most general one
Standard ==
    {<<Known[i].code, Known[i].name>> : i \in {i \in 1..Len(Known) : Known[i].code # 0}}
Get(m, k) == LET S == {p \in m : p[1] = k} IN IF S = {} THEN None ELSE (CHOOSE p \in S : TRUE)[2]
Put(m, k, v) == {p \in m : p[1] # k} \union {<<k, v>>}
Over(m, x) == {p \in m : Get(x, p[1]) = None} \union x

InitState(c) ==
    [classes |-> Known \o [i \in 1..Len(c.classes) |-> [name |-> c.classes[i].name, base |-> c.classes[i].base, code |-> c.classes[i].code,
                                                        desc |-> c.classes[i].desc, also |-> None]],
     own |-> {}, aborters |-> <<Standard>>]
InitRet(c) == Done
Mapping(s, w) == CASE w = "default" -> Standard [] w = "own" -> s.own [] w = "none" -> {}
Has(s, n) == \E i \in 1..Len(s.classes) : s.classes[i].name = n
Step(s, e) ==
    CASE e.op = "make" -> IF ~Has(s, e.cls) THEN R(s, Exc("KeyError")) ELSE R(s, Val(Made(s, e.cls, e.a)))
      [] e.op = "wrap" ->
            LET n == IF e.name = None THEN e.cls \o e.also ELSE e.name
            IN R([s EXCEPT !.classes = Append(@, [name |-> n, base |-> e.cls, code |-> 0, desc |-> None, also |-> e.also])], Val(n))
      [] e.op = "put" -> R([s EXCEPT !.own = Put(@, e.code, e.cls)], Done)
      [] e.op = "aborter" -> R([s EXCEPT !.aborters = Append(@, Over(Mapping(s, e.map), Mapping(s, e.extra)))], Done)
      [] e.op = "abort" ->
            LET n == Get(s.aborters[e.i], e.code)
            IN IF n = None THEN R(s, Exc("LookupError")) ELSE R(s, Val(Made(s, n, e.a)))
      [] e.op = "answer" -> R(s, Val(Made(s, "HTTPException", [Nothing EXCEPT !.resp = e.resp])))
      [] e.op = "standard" -> R(s, Val([SET |-> Standard]))
Obs(s) == 0

----------------------------------------------------------------------------
StateInv(s) ==
    \* one error for each number, and it has that number
    /\ \A p, q \in Standard : p[1] = q[1] => p = q
    /\ \A p \in Standard : CodeOf(s, p[2]) = p[1]
    /\ s.aborters[1] = Standard
StepInv(s, e, r) ==
    /\ \A i \in 1..Len(s.aborters) : r.st.aborters[i] = s.aborters[i]
    /\ (e.op = "abort" /\ e.i = 1 /\ r.ret.k = "val") => r.ret.v.code = e.code
    /\ r.ret.k = "val" /\ e.op \in {"make", "abort", "answer"} => "HTTPException" \in r.ret.v.isa.SET
=============================================================================
