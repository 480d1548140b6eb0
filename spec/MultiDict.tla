----------------------------- MODULE MultiDict -----------------------------
(***************************************************************************)
(* Multi-value dictionaries: maps from keys to non-empty lists of values.  *)
(* Two dictionaries a and b, each plain or ordered, and c, the read-only   *)
(* combination of both.  A dictionary is the sequence of its (key, value)  *)
(* items; for a plain one only the order inside of a key is visible, so    *)
(* its items are kept grouped by key.                                      *)
(***************************************************************************)
EXTENDS HttpText

Item(k, v) == <<k, v>>
Has(d, k) == \E i \in 1..Len(d) : d[i][1] = k
List(d, k) == LET S == SelectSeq(d, LAMBDA f : f[1] = k) IN [i \in 1..Len(S) |-> S[i][2]]
Without(d, k) == SelectSeq(d, LAMBDA f : f[1] # k)
Items(k, vs) == [i \in 1..Len(vs) |-> <<k, vs[i]>>]
\* keys by first appearance
RECURSIVE KeysFrom(_, _, _)
KeysFrom(d, i, seen) ==
    IF i > Len(d) THEN seen
    ELSE KeysFrom(d, i + 1, IF \E j \in 1..Len(seen) : seen[j] = d[i][1] THEN seen ELSE Append(seen, d[i][1]))
Keys(d) == KeysFrom(d, 1, <<>>)
Group(d) == LET ks == Keys(d) IN Flat([i \in 1..Len(ks) |-> Items(ks[i], List(d, ks[i]))])

Norm(kind, d) == IF kind = "plain" THEN Group(d) ELSE d
Make(kind, items) == [kind |-> kind, items |-> Norm(kind, items)]

\* setting replaces in place for the plain one and moves to the end for the ordered one
Put(x, k, vs) ==
    IF x.kind = "ordered" THEN [x EXCEPT !.items = Without(x.items, k) \o Items(k, vs)]
    ELSE IF ~Has(x.items, k) THEN Make("plain", x.items \o Items(k, vs))
    ELSE LET ks == Keys(x.items)
         IN Make("plain", Flat([i \in 1..Len(ks) |-> Items(ks[i], IF ks[i] = k THEN vs ELSE List(x.items, ks[i]))]))
Drop(x, k) == [x EXCEPT !.items = Without(x.items, k)]
AddTo(x, items) == Make(x.kind, x.items \o items)
LastKey(x) == LET ks == Keys(x.items) IN ks[Len(ks)]
\* Lists are the same for every key
SameLists(d1, d2) == {<<k, List(d1, k)>> : k \in Range(Keys(d1))} = {<<k, List(d2, k)>> : k \in Range(Keys(d2))}
Equal(x, y) == IF x.kind = "ordered" /\ y.kind = "ordered" THEN x.items = y.items ELSE SameLists(x.items, y.items)

\* the combination shows the lists of a followed by those of b
Comb(s) == [kind |-> "plain", items |-> Group(s.a.items \o s.b.items)]
Slot(s, o) == IF o = "a" THEN s.a ELSE IF o = "b" THEN s.b ELSE Comb(s)
Set(s, o, x) == IF o = "a" THEN [s EXCEPT !.a = x] ELSE [s EXCEPT !.b = x]

\* where new items come from: [how |-> "pairs"|"dict"|"none"|"a"|"b"|"c"|..., pairs]
Source(s, src) ==
    CASE src.how = "pairs" -> src.pairs
      [] src.how \in {"dict", "plain"} -> Group(src.pairs)
      [] src.how = "ordered" -> src.pairs
      [] src.how = "none" -> <<>>
      [] src.how \in {"a", "b"} -> Slot(s, src.how).items
      \* items of a combination come dictionary by dictionary
      [] src.how = "c" -> s.a.items \o s.b.items

Conv(t, v) == IF t = "int" THEN PyInt(v) ELSE v
CanConv(t, v) == t = "none" \/ IsPyInt(v)
\* first value, converted; the combination falls through to the next dictionary
Get(x, k, d, t) == IF Has(x.items, k) /\ CanConv(t, List(x.items, k)[1]) THEN Conv(t, List(x.items, k)[1]) ELSE d
GetComb(s, k, d, t) ==
    IF Has(s.a.items, k) /\ CanConv(t, List(s.a.items, k)[1]) THEN Get(s.a, k, d, t) ELSE Get(s.b, k, d, t)
GetList(x, k, t) == LET ok == SelectSeq(List(x.items, k), LAMBDA v : CanConv(t, v)) IN [i \in 1..Len(ok) |-> Conv(t, ok[i])]

Missing == Exc("BadRequestKeyError")
Lists(x) == LET ks == Keys(x.items) IN [SET |-> {<<k, List(x.items, k)>> : k \in Range(ks)}]
View(x) == IF x.kind = "ordered" THEN [lists |-> Lists(x), multi |-> x.items] ELSE [lists |-> Lists(x)]

InitState(c) ==
    LET empty == [a |-> Make("plain", <<>>), b |-> Make("plain", <<>>)]
    IN [a |-> Make(c.a, Source(empty, c.asrc)), b |-> Make(c.b, Source(empty, c.bsrc))]
InitRet(c) == Done

Step(s, e) ==
    LET x == Slot(s, e.o) IN
    CASE e.op = "getitem" -> R(s, IF Has(x.items, e.k) THEN Val(List(x.items, e.k)[1]) ELSE Missing)
      [] e.op = "get" -> R(s, Val(IF e.o = "c" THEN GetComb(s, e.k, e.d, e.t) ELSE Get(x, e.k, e.d, e.t)))
      [] e.op = "getlist" -> R(s, Val(GetList(x, e.k, e.t)))
      [] e.op = "contains" -> R(s, Val(Has(x.items, e.k)))
      [] e.op = "setitem" -> R(Set(s, e.o, Put(x, e.k, <<e.v>>)), Done)
      [] e.op = "add" -> R(Set(s, e.o, AddTo(x, << <<e.k, e.v>> >>)), Done)
      [] e.op = "delitem" -> IF Has(x.items, e.k) THEN R(Set(s, e.o, Drop(x, e.k)), Done) ELSE R(s, Exc("KeyError"))
      [] e.op = "setlist" -> R(Set(s, e.o, IF e.vs = <<>> THEN Drop(x, e.k) ELSE Put(x, e.k, e.vs)), Done)
      [] e.op = "setdefault" ->
            IF Has(x.items, e.k) THEN R(s, Val(List(x.items, e.k)[1])) ELSE R(Set(s, e.o, Put(x, e.k, <<e.v>>)), Val(e.v))
      \* the list returned is the one inside: e.ext is appended to it afterwards
      [] e.op = "setlistdefault" ->
            IF x.kind = "ordered" THEN R(s, Exc("TypeError"))
            ELSE LET l == (IF Has(x.items, e.k) THEN List(x.items, e.k) ELSE e.vs) \o e.ext
                 IN R(Set(s, e.o, Put(x, e.k, l)), Val(l))
      [] e.op \in {"update", "ior"} -> R(Set(s, e.o, AddTo(x, Source(s, e.src))), Done)
      [] e.op = "or" -> R(s, Val(View(AddTo(x, Source(s, e.src)))))
      [] e.op = "pop" -> IF Has(x.items, e.k) THEN R(Set(s, e.o, Drop(x, e.k)), Val(List(x.items, e.k)[1])) ELSE R(s, Missing)
      [] e.op = "popdef" -> IF Has(x.items, e.k) THEN R(Set(s, e.o, Drop(x, e.k)), Val(List(x.items, e.k)[1])) ELSE R(s, Val(e.d))
      [] e.op = "poplist" -> R(Set(s, e.o, Drop(x, e.k)), Val(List(x.items, e.k)))
      [] e.op = "popitem" ->
            IF x.items = <<>> THEN R(s, Missing)
            ELSE LET k == LastKey(x) IN R(Set(s, e.o, Drop(x, k)), Val(<<k, List(x.items, k)[1]>>))
      [] e.op = "popitemlist" ->
            IF x.items = <<>> THEN R(s, Missing)
            ELSE LET k == LastKey(x) IN R(Set(s, e.o, Drop(x, k)), Val(<<k, List(x.items, k)>>))
      [] e.op = "clear" -> R(Set(s, e.o, [x EXCEPT !.items = <<>>]), Done)
      \* a fresh object of the same kind in the other slot (or, of c, a value only)
      [] e.op = "copy" -> IF e.o = "c" THEN R(s, Val(View(x))) ELSE R(Set(s, e.to, x), Done)
      [] e.op = "setstate" -> R(Set(s, e.to, Make(Slot(s, e.to).kind, x.items)), Done)
      [] e.op = "new" -> R(Set(s, e.o, Make(e.kind, Source(s, e.src))), Done)
      [] e.op = "fromkeys" -> R(Set(s, e.o, Make(x.kind, [i \in 1..Len(e.ks) |-> <<e.ks[i], e.v>>])), Done)
      [] e.op = "eq" -> LET q == Equal(x, Slot(s, e.to)) IN R(s, Val(<<q, ~q>>))
      \* compared to something that is no dictionary
      [] e.op = "eqother" -> R(s, Val(<<FALSE, TRUE>>))
Obs(s) == [a |-> View(s.a), b |-> View(s.b), c |-> View(Comb(s))]

\* ---- properties
Reads == {"getitem", "get", "getlist", "contains", "or", "eq", "eqother"}
\* items of a plain dictionary are grouped, every key has values
StateInv(s) ==
    /\ s.a.kind = "plain" => s.a.items = Group(s.a.items)
    /\ s.b.kind = "plain" => s.b.items = Group(s.b.items)
    /\ \A k \in Range(Keys(s.a.items)) \union Range(Keys(s.b.items)) :
          List(Comb(s).items, k) = List(s.a.items, k) \o List(s.b.items, k)
\* operations on one dictionary leave the other one and the other keys alone
StepInv(s, e, r) ==
    LET y == Slot(r.st, e.o) x == Slot(s, e.o)
        keyed == {"setitem", "add", "delitem", "setlist", "setdefault", "setlistdefault", "pop", "popdef", "poplist"}
    IN
    /\ e.op \in Reads => r.st = s
    /\ r.ret.k = "exc" => r.st = s
    /\ e.op \in keyed => Without(x.items, e.k) = Without(y.items, e.k)
    /\ e.op \notin {"copy", "setstate"} /\ e.o = "a" => r.st.b = s.b
    /\ e.op \notin {"copy", "setstate"} /\ e.o = "b" => r.st.a = s.a
    /\ e.op = "add" => List(y.items, e.k) = Append(List(x.items, e.k), e.v)
    /\ e.op = "copy" /\ e.o # "c" => Equal(Slot(r.st, e.to), x)
    /\ e.op \in {"pop", "popdef", "poplist", "delitem"} => ~Has(y.items, e.k)
    \* the ordered one only ever appends to the items that stay
    /\ e.op \in keyed \union {"update", "ior"} /\ x.kind = "ordered" =>
          LET keep == SelectSeq(x.items, LAMBDA f : e.op \in {"update", "ior", "add"} \/ Has(Without(x.items, e.k), f[1]))
          IN SubSeq(y.items, 1, Len(keep)) = keep \/ y = x
=============================================================================
