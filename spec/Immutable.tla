----------------------------- MODULE Immutable -----------------------------
(***************************************************************************)
(* Immutable structures: every operation that would change one is refused  *)
(* with a type error and changes nothing; what is derived from it (copies, *)
(* pickles, the lists it hands out) is independent of it.                  *)
(*                                                                         *)
(* The content is a sequence of (key, value) items; a list has the key ""  *)
(* for all of its items.                                                   *)
(***************************************************************************)
EXTENDS HttpText
MD == INSTANCE MultiDict

Multi == {"multi", "omulti", "comb", "args"}
Dicts == {"dict", "tcdict", "auth", "cache", "cookies"}
Lists == {"list", "route"}
Hdrs == {"headers"}
HasCopy(kind) == kind \in (Multi \union Dicts \union Lists) \ {"comb"}

\* one value per key
RECURSIVE LastWins(_, _)
LastWins(items, i) == IF i > Len(items) THEN MD!Make("plain", <<>>) ELSE MD!Put(LastWins(items, i + 1), items[i][1], <<items[i][2]>>)
FirstOf(items) == LET ks == MD!Keys(items) IN [i \in 1..Len(ks) |-> <<ks[i], MD!List(items, ks[i])[1]>>]
Content(c) ==
    IF c.kind \in Lists THEN [i \in 1..Len(c.items) |-> <<"", c.items[i][2]>>]
    ELSE IF c.kind \in Dicts \union Hdrs THEN FirstOf(c.items)
    ELSE IF c.kind = "omulti" THEN c.items
    ELSE MD!Group(c.items)
MdKind(kind) == IF kind \in {"omulti"} \union Lists THEN "ordered" ELSE "plain"
NoCopy == [kind |-> "plain", items |-> <<>>]

InitState(c) == [kind |-> c.kind, items |-> Content(c), has |-> FALSE, copy |-> NoCopy]
InitRet(c) == Done

\* names of the refused operations, by kind
ListOps == {"append", "extend", "insert", "pop", "popidx", "remove", "reverse", "sort", "sortkey", "clear", "setidx",
            "setslice", "delidx", "delslice", "iadd", "imul"}
DictOps == {"setitem", "delitem", "update", "updatekw", "clear", "pop", "popdef", "popmissing", "popitem", "setdefault", "setdefault2", "ior"}
MultiOps == DictOps \union {"add", "setlist", "setlistdefault", "poplist", "popitemlist"}
HeaderOps == {"setitem", "delitem", "set", "add", "add_header", "remove", "extend", "insert", "pop", "popdef", "popitem", "setdefault",
              "clear", "setidx", "delidx"}
CacheOps == {"setprop", "setprop2", "delprop", "setnone"}
Refused(kind) ==
    IF kind \in Lists THEN ListOps ELSE IF kind \in Hdrs THEN HeaderOps
    ELSE IF kind \in Multi THEN MultiOps ELSE IF kind = "cache" THEN DictOps \union CacheOps ELSE DictOps

Show(kind, items) == IF MdKind(kind) = "ordered" THEN [seq |-> items] ELSE [lists |-> MD!Lists([items |-> items])]

Step(s, e) ==
    CASE e.op = "mutate" -> R(s, IF e.name \in Refused(s.kind) THEN Exc("TypeError") ELSE Val("not applicable"))
      [] e.op = "copy" ->
            IF ~HasCopy(s.kind) THEN R(s, Val("not applicable"))
            ELSE R([s EXCEPT !.has = TRUE, !.copy = [kind |-> MdKind(s.kind), items |-> s.items]], Done)
      \* equal and immutable, possibly the same object
      [] e.op \in {"copy.copy", "deepcopy", "pickle"} ->
            R(s, IF s.kind \in Hdrs THEN Val("not applicable") ELSE Val([content |-> Show(s.kind, s.items), equal |-> TRUE, hash |-> TRUE]))
      \* another one made by the class, from keys that share a value
      [] e.op = "fromkeys" ->
            R(s, IF s.kind = "comb" THEN Exc("TypeError")
                 ELSE IF s.kind \notin {"dict", "tcdict", "multi", "omulti"} THEN Val("not applicable")
                 ELSE Val(Show(s.kind, MD!Group([i \in 1..Len(e.keys) |-> <<e.keys[i], e.v>>]))))
      \* the copy is an ordinary list or dictionary
      [] e.op \in {"cset", "cadd", "cdel", "cclear"} ->
            IF ~s.has THEN R(s, Val("not applicable"))
            ELSE LET x == s.copy
                     list == s.kind \in Lists
                     y == CASE e.op = "cset" -> IF list THEN [x EXCEPT !.items = Append(x.items, <<"", e.v>>)] ELSE MD!Put(x, e.k, <<e.v>>)
                            [] e.op = "cadd" ->
                                  IF list THEN [x EXCEPT !.items = Append(x.items, <<"", e.v>>)]
                                  ELSE IF s.kind \in Multi THEN MD!AddTo(x, << <<e.k, e.v>> >>)
                                  ELSE MD!Put(x, e.k, <<e.v>>)
                            [] e.op = "cdel" ->
                                  IF list THEN [x EXCEPT !.items = IF x.items = <<>> THEN <<>> ELSE Tail(x.items)] ELSE MD!Drop(x, e.k)
                            [] e.op = "cclear" -> [x EXCEPT !.items = <<>>]
                 IN R([s EXCEPT !.copy = y], Done)
Obs(s) == [content |-> Show(s.kind, s.items), hash |-> "same", copy |-> Show(s.kind, s.copy.items)]
StateInv(s) == TRUE
\* C13
StepInv(s, e, r) ==
    /\ r.st.items = s.items
    /\ e.op = "mutate" => r.st = s /\ (r.ret.k = "exc" <=> e.name \in Refused(s.kind))
    /\ e.op = "copy" /\ r.ret = Done => r.st.copy.items = s.items
=============================================================================
