------------------------------- MODULE Accept -------------------------------
(* Content negotiation as a component: the state is the list of available   *)
(* representations, every operation is one negotiation.                     *)
EXTENDS Negotiate

\* the text of one range
RECURSIVE NoTrailingZeros(_)
NoTrailingZeros(t) == IF Len(t) > 1 /\ Ch(t, Len(t)) = "0" THEN NoTrailingZeros(UpTo(t, Len(t) - 1)) ELSE t
Thousandths(q) == "0." \o NoTrailingZeros(UpTo("000", 3 - Len(ToString(q))) \o ToString(q))
RangeText(o) ==
    o.v \o (IF o.q = 1000 THEN "" ELSE ";q=" \o Thousandths(o.q))
        \o Join([i \in 1..Len(o.params) |-> ";" \o o.params[i][1] \o "=" \o o.params[i][2]], "")

\* ---- interface to the drivers: the state is the list of representations
InitState(c) == c.reprs
InitRet(c) == Done
Step(rs, e) ==
    CASE e.op = "select" ->
            LET q == IF e.order = "rev" THEN Rev(rs) ELSE rs
                i == Select(q, e.accept, e.lang, e.cs)
            IN R(rs, IF i = 0 THEN Exc(NotAcceptable) ELSE Val(IF e.order = "rev" THEN Len(rs) + 1 - i ELSE i))
      [] e.op = "value" ->
            LET p == ParseHeader(e.kind, e.header)
            IN IF ~p.ok THEN R(rs, Exc("ValueError"))
               ELSE LET g == Grade(e.kind, e.a, p.rs)
                    IN IF g.out THEN R(rs, Exc(NotAcceptable))
                       ELSE R(rs, Val([quality |-> g.s[2], exact |-> \E i \in 1..Len(p.rs) : p.rs[i].v = e.a.v,
                                   closeness |-> g.s[1]]))
      [] e.op = "make" ->   \* ranges given one by one rather than as a header
            IF \E i \in 1..Len(e.opts) : ~ValidValue(e.kind, e.opts[i].v) \/ (e.kind # "ct" /\ e.opts[i].params # <<>>)
            THEN R(rs, Exc("ValueError"))
            ELSE R(rs, Val(Join([i \in 1..Len(e.opts) |-> RangeText(e.opts[i])], ",")))
      [] e.op = "order" ->
            LET gs == GradesFor(rs, e.accept, e.lang, e.cs)
                a == gs[e.i] b == gs[e.j]
            IN IF a.out \/ b.out THEN R(rs, Exc(NotAcceptable))
               ELSE R(rs, Val(IF LexGreater(a.s, b.s) THEN "gt" ELSE IF LexGreater(b.s, a.s) THEN "lt" ELSE "eq"))
      [] e.op = "parse" ->
            LET p == ParseHeader(e.kind, e.header)
            IN IF ~p.ok THEN R(rs, Exc("ValueError"))
               ELSE R(rs, Val([i \in 1..Len(p.rs) |-> [v |-> p.rs[i].v, q |-> p.rs[i].q, params |-> [SET |-> p.rs[i].params]]]))
Obs(rs) == [n |-> Len(rs)]
StateInv(rs) == TRUE

\* C05, stated without the selection loop
Excludes(a, kind, text) ==
    /\ a.v # None
    /\ LET rs == Ranges(kind, text)
           C(i) == Closeness(kind, a.v, rs[i].v)
       IN \A i \in 1..Len(rs) : C(i) >= 0 /\ rs[i].q > 0 => \E j \in 1..Len(rs) : C(j) > C(i)
StepInv(rs, e, r) ==
    e.op = "select" =>
        LET gs == GradesFor(rs, e.accept, e.lang, e.cs)
            ok == {i \in 1..Len(rs) : ~gs[i].out}
        IN IF r.ret.k = "exc" THEN ok = {}
           ELSE /\ r.ret.v \in ok
                /\ \A j \in ok : ~LexGreater(gs[j].s, gs[r.ret.v].s)
                \* turning the list around changes nothing but the choice among equals
                /\ LET j == SelectFrom(Rev(gs), 1, 0) IN gs[Len(rs) + 1 - j].s = gs[r.ret.v].s
                \* the range that decides is the closest one
                /\ ~Excludes(rs[r.ret.v].ct, "ct", e.accept)
=============================================================================
