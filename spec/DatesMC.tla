------------------------------ MODULE DatesMC ------------------------------
(* Every day of the calendar from the year 1000 on, in steps of McStep      *)
(* years, and every second of a day in steps.                               *)
EXTENDS Dates, TLC
CONSTANTS McYearStep, McSecStep
McDepth == 1
McInits == {"UTC0"}
Evs == {[op |-> "days", x |-> [d |-> DaysOf(y, 1, 1), s |-> (y * 7919) % 86400], n |-> 366] : y \in {1000 + McYearStep * i : i \in 0..((8998 \div McYearStep))}}
    \union {[op |-> "format", form |-> "int", off |-> 0, x |-> [d |-> 15039, s |-> s]] : s \in {McSecStep * i : i \in 0..((86399 \div McSecStep))}}
McEvents(s) == Evs
McConstraint(s) == TRUE
McKey(c) == 0
=============================================================================
