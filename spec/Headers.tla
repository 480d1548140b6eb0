------------------------------ MODULE Headers ------------------------------
(***************************************************************************)
(* A header collection: an ordered list of fields <<name, value>> whose    *)
(* names are compared without case.  One operator per public operation.    *)
(***************************************************************************)
EXTENDS HttpText

\* A value argument: [t |-> "s"|"b"|"i", v |-> text]: the text itself, or the
\* bytes or the integer with that text; all three are stored as that text.
TextOf(a) == a.v
\* with keyword parameters: sequence of <<name, value>>, underscores -> dashes
Full(a, kw) ==
    IF kw = <<>> THEN TextOf(a)
    ELSE DumpOptions(TextOf(a), [i \in 1..Len(kw) |-> <<ReplaceAll(kw[i][1], "_", "-"), kw[i][2]>>])
Clean(v) == ~AnyIn(v, {"\r", "\n"})

Same(a, b) == Lower(a) = Lower(b)
Idx(h, k) == {i \in 1..Len(h) : Same(h[i][1], k)}
Has(h, k) == Idx(h, k) # {}
First(h, k) == h[MinOf(Idx(h, k))][2]
GetList(h, k) == LET S == SelectSeq(h, LAMBDA f : Same(f[1], k)) IN [i \in 1..Len(S) |-> S[i][2]]
Without(h, k) == SelectSeq(h, LAMBDA f : ~Same(f[1], k))

\* Replace the first field of that name, drop the others; append if none
SetField(h, k, v) ==
    IF ~Has(h, k) THEN Append(h, <<k, v>>)
    ELSE LET i == MinOf(Idx(h, k))
         IN SubSeq(h, 1, i - 1) \o << <<k, v>> >> \o Without(SubSeq(h, i + 1, Len(h)), k)

\* add fields one by one until one is rejected
RECURSIVE AddAll(_, _)
AddAll(h, items) ==
    IF items = <<>> THEN [h |-> h, ok |-> TRUE]
    ELSE LET f == Head(items) v == TextOf(f[2])
         IN IF Clean(v) THEN AddAll(Append(h, <<f[1], v>>), Tail(items))
            ELSE [h |-> h, ok |-> FALSE]
\* a dictionary of lists, in order
FlatItems(d) == Flat([i \in 1..Len(d) |-> [j \in 1..Len(d[i][2]) |-> <<d[i][1], d[i][2][j]>>]])

\* Python indices: i may be negative; position in 1..n or 0 if out of range
Pos(i, n) == IF i >= 0 THEN (IF i < n THEN i + 1 ELSE 0) ELSE (IF n + i >= 0 THEN n + i + 1 ELSE 0)
Clip(i, n) == LET j == IF i < 0 THEN n + i ELSE i IN IF j < 0 THEN 0 ELSE IF j > n THEN n ELSE j
\* slice [i:j) as a 0-based half-open interval lo..hi with lo <= hi
Lo(i, n) == Clip(i, n)
Hi(i, j, n) == LET a == Clip(i, n) b == Clip(j, n) IN IF b < a THEN a ELSE b

HText(h) == Join([i \in 1..Len(h) |-> h[i][1] \o ": " \o h[i][2]] \o <<"\r\n">>, "\r\n")

\* ---- interface to the drivers
InitState(c) ==
    LET items == IF c.how = "dict" THEN FlatItems(c.items) ELSE c.items
        a == AddAll(<<>>, items)
    IN IF a.ok THEN a.h ELSE <<>>      \* rejected: go on with an empty one
InitRet(c) ==
    LET items == IF c.how = "dict" THEN FlatItems(c.items) ELSE c.items
    IN IF AddAll(<<>>, items).ok THEN Done ELSE Exc("ValueError")

Write(h, v, h2) == IF Clean(v) THEN R(h2, Done) ELSE R(h, Exc("ValueError"))

Step(h, e) ==
    CASE e.op \in {"add", "add_header"} ->
            LET v == Full(e.v, e.kw) IN Write(h, v, Append(h, <<e.key, v>>))
      [] e.op = "set" -> LET v == Full(e.v, e.kw) IN Write(h, v, SetField(h, e.key, v))
      [] e.op = "setitem" -> LET v == TextOf(e.v) IN Write(h, v, SetField(h, e.key, v))
      [] e.op = "setidx" ->
            LET v == TextOf(e.v) p == Pos(e.i, Len(h))
            IN IF ~Clean(v) THEN R(h, Exc("ValueError"))
               ELSE IF p = 0 THEN R(h, Exc("IndexError"))
               ELSE R([h EXCEPT ![p] = <<e.key, v>>], Done)
      [] e.op = "setslice" ->
            LET new == [i \in 1..Len(e.items) |-> <<e.items[i][1], TextOf(e.items[i][2])>>]
            IN IF \E i \in 1..Len(new) : ~Clean(new[i][2]) THEN R(h, Exc("ValueError"))
               ELSE R(SubSeq(h, 1, Lo(e.i, Len(h))) \o new \o SubSeq(h, Hi(e.i, e.j, Len(h)) + 1, Len(h)), Done)
      [] e.op \in {"delkey", "remove"} -> R(Without(h, e.key), Done)
      [] e.op = "delidx" ->
            LET p == Pos(e.i, Len(h)) IN IF p = 0 THEN R(h, Exc("IndexError")) ELSE R(RemoveAt(h, p), Done)
      [] e.op = "delslice" ->
            R(SubSeq(h, 1, Lo(e.i, Len(h))) \o SubSeq(h, Hi(e.i, e.j, Len(h)) + 1, Len(h)), Done)
      [] e.op = "pop" -> IF Has(h, e.key) THEN R(Without(h, e.key), Val(First(h, e.key))) ELSE R(h, Exc("KeyError"))
      [] e.op = "popdef" -> IF Has(h, e.key) THEN R(Without(h, e.key), Val(First(h, e.key))) ELSE R(h, Val(e.d))
      [] e.op = "popidx" ->
            LET p == Pos(e.i, Len(h)) IN IF p = 0 THEN R(h, Exc("IndexError")) ELSE R(RemoveAt(h, p), Val(h[p]))
      [] e.op \in {"poplast", "popitem"} ->
            IF h = <<>> THEN R(h, Exc("IndexError")) ELSE R(SubSeq(h, 1, Len(h) - 1), Val(h[Len(h)]))
      [] e.op = "clear" -> R(<<>>, Done)
      [] e.op = "setdefault" ->
            IF Has(h, e.key) THEN R(h, Val(First(h, e.key)))
            ELSE LET v == TextOf(e.v)
                 IN IF Clean(v) THEN R(Append(h, <<e.key, v>>), Val(v)) ELSE R(h, Exc("ValueError"))
      [] e.op \in {"extend", "extendh"} ->
            LET a == AddAll(h, e.items) IN R(a.h, IF a.ok THEN Done ELSE Exc("ValueError"))
      [] e.op = "extendd" ->
            LET a == AddAll(h, FlatItems(e.items)) IN R(a.h, IF a.ok THEN Done ELSE Exc("ValueError"))
      \* reads
      [] e.op = "getitem" -> R(h, IF Has(h, e.key) THEN Val(First(h, e.key)) ELSE Exc("KeyError"))
      [] e.op = "get" -> R(h, Val(IF Has(h, e.key) THEN First(h, e.key) ELSE e.d))
      [] e.op = "getbytes" -> R(h, Val(IF Has(h, e.key) THEN "b:" \o First(h, e.key) ELSE None))
      [] e.op = "getint" ->
            R(h, Val(IF Has(h, e.key) THEN (IF IsPyInt(First(h, e.key)) THEN PyInt(First(h, e.key)) ELSE e.d) ELSE e.d))
      [] e.op = "getlistint" ->
            LET all == GetList(h, e.key)
                ok == SelectSeq(all, LAMBDA v : IsPyInt(v))
            IN R(h, Val([i \in 1..Len(ok) |-> PyInt(ok[i])]))
      [] e.op = "contains" -> R(h, Val(Has(h, e.key)))
      [] e.op = "getidx" -> LET p == Pos(e.i, Len(h)) IN R(h, IF p = 0 THEN Exc("IndexError") ELSE Val(h[p]))
      [] e.op = "getslice" -> R(h, Val(SubSeq(h, Lo(e.i, Len(h)) + 1, Hi(e.i, e.j, Len(h)))))
      \* equality ignores order
      [] e.op = "eq" -> R(h, Val({h[i] : i \in 1..Len(h)} = {<<e.items[i][1], TextOf(e.items[i][2])>> : i \in 1..Len(e.items)}))
      \* continue with the copy; the original must stay what it was
      [] e.op = "copy" -> R(h, Val(h))

Probes == <<"A", "a", "b", "Content-Type", "X-Y">>
Obs(h) == [list |-> h, n |-> Len(h), text |-> HText(h),
           lkeys |-> [i \in 1..Len(h) |-> Lower(h[i][1])],
           probes |-> [i \in 1..Len(Probes) |-> GetList(h, Probes[i])]]

\* ---- properties
\* C11: no stored value contains a line break
NoBreaks(h) == \A i \in 1..Len(h) : Clean(h[i][2])
StateInv(h) == NoBreaks(h)

\* C10, as facts about steps rather than about the operators above
Writes == {"add", "add_header", "set", "setitem", "setdefault", "extend", "extendh", "extendd"}
Reads == {"getitem", "get", "getbytes", "getint", "getlistint", "contains", "getidx", "getslice", "eq", "copy"}
StepInv(h, e, r) ==
    /\ e.op \in Reads => r.st = h
    /\ r.ret.k = "exc" /\ e.op \notin {"extend", "extendh", "extendd"} => r.st = h
    /\ e.op \in {"set", "setitem"} /\ r.ret.k = "val" =>
          /\ Cardinality(Idx(r.st, e.key)) = 1
          /\ Without(r.st, e.key) = Without(h, e.key)
    /\ e.op \in {"delkey", "remove", "pop", "popdef"} /\ r.ret.k = "val" =>
          /\ ~Has(r.st, e.key)
          /\ r.st = Without(h, e.key)
    /\ e.op \in {"add", "add_header"} /\ r.ret.k = "val" =>
          GetList(r.st, e.key) = Append(GetList(h, e.key), r.st[Len(r.st)][2])
    /\ e.op = "setdefault" /\ r.ret.k = "val" => First(r.st, e.key) = r.ret.v
=============================================================================
