------------------------------ MODULE Dispatch ------------------------------
(***************************************************************************)
(* Dispatchers: from the name of an endpoint and a request method to the   *)
(* handler that answers.  The state is a sequence of dispatchers, each a   *)
(* sequence of bindings [name, method, rep, label] in order of addition.   *)
(* Adding a dispatcher to another one adds the bindings it has at that     *)
(* moment.                                                                 *)
(***************************************************************************)
EXTENDS Negotiate

InitState(c) == [i \in 1..c.n |-> <<>>]
InitRet(c) == Done

\* what an added factory contributes
Contributed(e) == [i \in 1..Len(e.methods) |-> [name |-> e.name, method |-> e.methods[i], rep |-> e.rep, label |-> e.label]]

Named(d, name) == SelectSeq(d, LAMBDA b : b.name = name)
WithMethod(d, name, m) == SelectSeq(d, LAMBDA b : b.name = name /\ b.method = m)
\* HEAD is answered by GET handlers unless there are HEAD handlers
Candidates(d, name, m) ==
    IF WithMethod(d, name, m) = <<>> /\ m = "HEAD" THEN WithMethod(d, name, "GET") ELSE WithMethod(d, name, m)
Lookup(d, name, m, accept, lang, cs) ==
    IF Named(d, name) = <<>> THEN Exc("NotImplemented")
    ELSE LET q == Candidates(d, name, m)
         IN IF q = <<>> THEN Exc("MethodNotAllowed")
            ELSE LET i == Select([k \in 1..Len(q) |-> q[k].rep], accept, lang, cs)
                 IN IF i = 0 THEN Exc(NotAcceptable) ELSE Val(q[i].label)

Step(s, e) ==
    CASE e.op = "add" -> R([s EXCEPT ![e.d] = @ \o Contributed(e)], Done)
      [] e.op = "nest" -> R([s EXCEPT ![e.d] = @ \o s[e.from]], Done)
      [] e.op = "lookup" -> R(s, Lookup(s[e.d], e.name, e.method, e.accept, e.lang, e.cs))
Obs(s) == [i \in 1..Len(s) |-> [SET |-> {<<s[i][k].name, s[i][k].method, s[i][k].label>> : k \in 1..Len(s[i])}]]
StateInv(s) == TRUE

\* C04 without reference to Candidates
StepInv(s, e, r) ==
    /\ e.op = "lookup" =>
        LET d == s[e.d]
            name == {i \in 1..Len(d) : d[i].name = e.name}
            exact == {i \in name : d[i].method = e.method}
            get == {i \in name : d[i].method = "GET"}
            usable == IF exact # {} THEN exact ELSE IF e.method = "HEAD" THEN get ELSE {}
        IN /\ r.st = s
           /\ r.ret.k = "val" => \E i \in usable : d[i].label = r.ret.v
           /\ (r.ret = Exc("NotImplemented")) <=> (name = {})
           /\ (r.ret = Exc("MethodNotAllowed")) <=> (name # {} /\ usable = {})
    /\ e.op = "nest" => \A i \in 1..Len(s) : i # e.d => r.st[i] = s[i]
=============================================================================
