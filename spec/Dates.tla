------------------------------- MODULE Dates -------------------------------
(* Formatting moments and reading them back.                                *)
EXTENDS Calendar

InitState(c) == c
InitRet(c) == Done
Show(x) == IF x = NoDate THEN None ELSE <<x.d, x.s>>
Step(st, e) ==
    R(st, CASE e.op = "format" -> Val(<<HttpDate(e.x), CookieDate(e.x), Show(e.x), Show(e.x), Show(e.x)>>)
            [] e.op = "days" -> Val([i \in 1..e.n |-> HttpDate([d |-> e.x.d + i - 1, s |-> e.x.s])])
            [] e.op = "parse" -> Val(Show(ParseDate(e.text)))
            [] e.op = "now" -> Val(TRUE))
Obs(st) == 0
StateInv(st) == TRUE
\* C20
Same(x) == ParseDate(HttpDate(x)) = x /\ ParseDate(CookieDate(x)) = x
StepInv(st, e, r) ==
    /\ e.op = "format" => Same(e.x)
    /\ e.op = "days" => \A i \in 1..e.n : LET x == [d |-> e.x.d + i - 1, s |-> e.x.s] c == Civil(x.d) IN
          (i % 30 = 0 => Same(x)) /\ DaysOf(c.y, c.m, c.d) = x.d /\ c.d \in 1..MonthDays(c.y, c.m) /\ c.m \in 1..12
=============================================================================
