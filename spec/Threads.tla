------------------------------ MODULE Threads ------------------------------
(***************************************************************************)
(* A route table shared by several threads.  A behaviour is a history of   *)
(* calls and returns; the table has to look as if every call took effect   *)
(* at one moment between its call and its return.                          *)
(*                                                                         *)
(* The state keeps every explanation of the history so far: the batches of *)
(* routes added, in order, and for each call how many of them it has seen  *)
(* (-1 not called, -2 called and not yet in effect, -3 returned).          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Str, TLC
Rt == INSTANCE Routing

\* c: [table, batches, calls]; a call is an operation of Routing on the table,
\* or [op |-> "extend", batch |-> i]
RECURSIVE Extend(_, _)
Extend(st, defs) == IF defs = <<>> THEN st ELSE Extend(Rt!Step(st, [op |-> "add", r |-> defs[1]]).st, Tail(defs))
RECURSIVE TableOf(_, _)
TableOf(c, adds) ==
    IF adds = <<>> THEN Rt!InitState(c.table)
    ELSE Extend(TableOf(c, SubSeq(adds, 1, Len(adds) - 1)), c.batches[adds[Len(adds)]])
Orders(n) == CASE n = 0 -> {<<>>} [] n = 1 -> {<<>>, <<1>>} [] n = 2 -> {<<>>, <<1>>, <<2>>, <<1, 2>>, <<2, 1>>}
IsAdd(e) == e.op = "extend"
\* an answer without the parts of the table it came from
Plain(r) == IF r.k = "match" THEN [k |-> "match", v |-> [ep |-> r.v.ep, vals |-> r.v.vals]] ELSE r
InitState(c) ==
    LET T == TLCEval([o \in Orders(Len(c.batches)) |-> TableOf(c, o)])
    IN [calls |-> c.calls,
        ans |-> TLCEval([o \in Orders(Len(c.batches)) |->
                    [i \in 1..Len(c.calls) |-> IF IsAdd(c.calls[i]) THEN Done ELSE Plain(Rt!Step(T[o], c.calls[i]).ret)]]),
        ways |-> {[adds |-> <<>>, at |-> [i \in 1..Len(c.calls) |-> -1]]}]
InitRet(c) == Done

\* a pending call takes effect now
Take(st, w, i) ==
    IF IsAdd(st.calls[i])
    THEN [adds |-> Append(w.adds, st.calls[i].batch), at |-> [w.at EXCEPT ![i] = Len(w.adds) + 1]]
    ELSE [w EXCEPT !.at[i] = Len(w.adds)]
Takes(st, w) == {Take(st, w, i) : i \in {i \in 1..Len(st.calls) : w.at[i] = -2}}
RECURSIVE Closure(_, _)
Closure(st, W) ==
    LET N == UNION {Takes(st, w) : w \in W} \ W
    IN IF N = {} THEN W ELSE Closure(st, W \union N)
Answer(st, w, i) == st.ans[SubSeq(w.adds, 1, w.at[i])][i]
\* a match that leads nowhere else and an error differ in kind, so the values have the same shape
Same(a, b) == a.k = b.k /\ a.v = b.v
Step(st, e) ==
    LET ways ==
            CASE e.op = "call" -> {[w EXCEPT !.at[e.i] = -2] : w \in st.ways}
              [] e.op = "ret" ->
                    {[w EXCEPT !.at[e.i] = -3] : w \in {w \in Closure(st, st.ways) : w.at[e.i] >= 0 /\ Same(Answer(st, w, e.i), e.a)}}
              [] e.op = "stuck" -> {}
    IN R([st EXCEPT !.ways = ways], Val(ways # {}))
Obs(st) == 0

\* C26
\* no explanation has a call see batches that were added after it returned, or
\* miss those that were there before it began: by construction of Step
StateInv(st) == \A w \in st.ways : \A i, j \in 1..Len(w.adds) : i # j => w.adds[i] # w.adds[j]
StepInv(st, e, r) == st.ways = {} => ~r.ret.v
=============================================================================
