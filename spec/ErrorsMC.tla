------------------------------ MODULE ErrorsMC -----------------------------
EXTENDS Errors
CONSTANT McDepth
McInits == {[classes |-> <<[name |-> "Own", base |-> "NotFound", code |-> 0, desc |-> "mine"],
                           [name |-> "Odd", base |-> "Own", code |-> 499, desc |-> None],
                           [name |-> "Late", base |-> "MethodNotAllowed", code |-> 0, desc |-> None]>>]}
All(s) == {s.classes[i].name : i \in 1..Len(s.classes)}
Arg(s, n) == {[Nothing EXCEPT !.desc = d] : d \in {None, "", "said"}}
    \union (IF IsMethods(s, n) THEN {[Nothing EXCEPT !.methods = m, !.desc = d] : m \in {"GET", "GET,HEAD"}, d \in {None, "said"}}
            ELSE {[Nothing EXCEPT !.resp = "r", !.desc = d] : d \in {None, "said"}})
    \union (IF Wrapped(s, n) THEN {[Nothing EXCEPT !.arg = "k", !.desc = d] : d \in {None, "said"}} ELSE {})
Wraps == {"Gone", "Late", "HTTPException"} \X {"KeyError", "ValueError"} \X {None, "Both"}
CodesTried == {1, 200, 400, 403, 404, 405, 418, 500, 505, 506}
McEvents(s) ==
    UNION {{[op |-> "make", cls |-> n, a |-> a, kw |-> k] : a \in Arg(s, n), k \in {TRUE}} : n \in (IF McDepth = 1 \/ Len(s.classes) > Len(Known) + 3 THEN All(s) ELSE {"NotFound"})}
    \union {[op |-> "abort", i |-> i, code |-> p[1], a |-> a, kw |-> k] :
               i \in {1}, p \in Standard, a \in {Nothing, [Nothing EXCEPT !.desc = "said"]}, k \in {TRUE}}
    \union {[op |-> "abort", i |-> i, code |-> k, a |-> [Nothing EXCEPT !.desc = "said"], kw |-> TRUE] : i \in 2..Len(s.aborters), k \in CodesTried}
    \union {[op |-> "put", code |-> k, cls |-> n] : k \in {1, 404}, n \in {"Own", "Odd", "BadRequestKeyError"}}
    \union {[op |-> "aborter", map |-> m, extra |-> x] : m \in {"default", "own", "none"}, x \in {"own", "none"}}
    \union {[op |-> "answer", resp |-> "r"], [op |-> "standard"]}
    \union {[op |-> "wrap", cls |-> p[1], also |-> p[2], name |-> p[3]] : p \in {<<n, x, y>> \in Wraps : ~Has(s, IF y = None THEN n \o x ELSE y)}}
McConstraint(s) == TRUE
McKey(c) == 0
=============================================================================
