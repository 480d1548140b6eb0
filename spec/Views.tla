------------------------------- MODULE Views -------------------------------
(***************************************************************************)
(* A response header and the live view a program holds on it.              *)
(*                                                                         *)
(* kind   "set"    Vary, Allow, Content-Language: items without repetition *)
(*        "cc"     Cache-Control: directives                               *)
(*        "params" parameters of the Content-Type                          *)
(*        "crange" Content-Range                                           *)
(*        "auth"   WWW-Authenticate: type and parameters                   *)
(*                                                                         *)
(* text is the header (None: absent), view the content of the object.      *)
(* Whatever is done to the view, the header follows (C14).                 *)
(***************************************************************************)
EXTENDS Ranges, AuthText

NoRange == [k |-> "crange", units |-> None, start |-> Open, stop |-> Open, length |-> Open]

\* ---- sets: case-insensitive, the first spelling stays
HasItem(q, v) == \E i \in 1..Len(q) : Lower(q[i]) = Lower(v)
RECURSIVE AddAll(_, _, _)
AddAll(q, items, i) ==
    IF i > Len(items) THEN q ELSE AddAll(IF HasItem(q, items[i]) THEN q ELSE Append(q, items[i]), items, i + 1)
IndexOf(q, v) == IF HasItem(q, v) THEN MinOf({i \in 1..Len(q) : Lower(q[i]) = Lower(v)}) ELSE 0
DropAt(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
\* replace the item at i; the new value occurs nowhere else afterwards
PutAt(q, i, v) ==
    LET keep == SelectSeq([j \in 1..Len(q) |-> [n |-> j, x |-> IF j = i THEN v ELSE q[j]]],
                          LAMBDA y : y.n = i \/ Lower(y.x) # Lower(v))
    IN [j \in 1..Len(keep) |-> keep[j].x]
\* Python index to position, 0 if outside
Pos(q, i) == IF i >= 0 THEN (IF i < Len(q) THEN i + 1 ELSE 0) ELSE (IF 0 - i <= Len(q) THEN Len(q) + i + 1 ELSE 0)

\* ---- dictionaries: sequences of <<key, value>> with distinct keys
DropKey(d, k) == SelectSeq(d, LAMBDA x : x[1] # k)
RECURSIVE PutAll(_, _, _)
PutAll(d, items, i) == IF i > Len(items) THEN d ELSE PutAll(DictPut(d, items[i][1], items[i][2]), items, i + 1)

\* ---- header text and view
Mime(text) == Strip(UpTo(text, SkipNot(text, 1, {";"}) - 1), White)
Parse(kind, text) ==
    CASE kind = "set" -> IF text = None THEN <<>> ELSE AddAll(<<>>, ParseList(text), 1)
      [] kind = "cc" -> IF text = None THEN <<>> ELSE ParseDict(text)
      [] kind = "params" -> ParseOptions(text).opts
      [] kind = "crange" -> IF text = None THEN NoRange
                            ELSE LET r == ParseContentRange(text) IN IF r.k = "none" THEN NoRange ELSE r
      [] kind = "auth" -> IF text = None THEN NoAuth ELSE ParseAuth(text)
Empty(kind, v) ==
    CASE kind \in {"set", "cc"} -> v = <<>>
      [] kind = "params" -> FALSE
      [] kind = "crange" -> v.units = None
      [] kind = "auth" -> v.type = None /\ v.d = <<>>
\* the text of the view itself
ViewText(kind, v) ==
    CASE kind = "set" -> DumpList(v)
      [] kind = "cc" -> DumpDict(v)
      [] kind = "params" -> ""
      [] kind = "crange" -> IF v.units = None THEN "" ELSE DumpContentRange(v)
      [] kind = "auth" -> IF Empty("auth", v) THEN "" ELSE DumpAuth(v)
HeaderText(kind, v, old) ==
    IF Empty(kind, v) THEN None
    ELSE IF kind = "params" THEN DumpOptions(Mime(old), v) ELSE ViewText(kind, v)

\* ---- cache control properties
PropKey(p) ==
    CASE p = "no_cache" -> "no-cache" [] p = "no_store" -> "no-store" [] p = "max_age" -> "max-age"
      [] p = "no_transform" -> "no-transform" [] p = "public" -> "public" [] p = "private" -> "private"
      [] p = "must_revalidate" -> "must-revalidate" [] p = "proxy_revalidate" -> "proxy-revalidate" [] p = "s_maxage" -> "s-maxage"
Flags == {"no_store", "public", "must_revalidate", "proxy_revalidate"}
NoValue(p) == CASE p \in {"no_cache", "private"} -> "*" [] p = "max_age" -> "-1" [] OTHER -> None
PropOf(d, p) ==
    LET k == PropKey(p) IN
    IF p \in Flags THEN HasKey(d, k)
    ELSE IF ~HasKey(d, k) THEN None
    ELSE LET v == Value(d, k) IN
         IF v = None THEN NoValue(p) ELSE IF p = "max_age" /\ IsPyInt(v) THEN IntText(PyInt(v)) ELSE v
\* on: "yes" / "no" / text
SetProp(d, p, on) ==
    LET k == PropKey(p) IN
    IF on = "no" THEN DropKey(d, k) ELSE IF on = "yes" THEN DictPut(d, k, None) ELSE DictPut(d, k, on)
CcProps == <<"no_cache", "no_store", "max_age", "no_transform", "public", "private", "must_revalidate", "proxy_revalidate", "s_maxage">>

\* ---- operations
InitState(c) == [kind |-> c.kind, name |-> c.name, text |-> c.text, view |-> Parse(c.kind, c.text)]
InitRet(c) == Done
\* the view becomes v, the header follows
W(st, v, ret) == R([st EXCEPT !.view = v, !.text = HeaderText(st.kind, v, st.text)], ret)
\* the header becomes text, the program fetches a new view
H(st, text) == R([st EXCEPT !.text = text, !.view = Parse(st.kind, text)], Done)

SetStep(st, e) ==
    LET q == st.view
        p == Pos(q, e.idx)
        x == IF e.op \in {"add", "remove", "discard", "find", "index", "has", "setidx"} THEN e.v ELSE ""
    IN CASE e.op = "add" -> W(st, AddAll(q, <<x>>, 1), Done)
         [] e.op = "update" -> W(st, AddAll(q, e.q, 1), Done)
         [] e.op = "remove" -> IF HasItem(q, x) THEN W(st, DropAt(q, IndexOf(q, x)), Done) ELSE R(st, Exc("KeyError"))
         [] e.op = "discard" -> W(st, IF HasItem(q, x) THEN DropAt(q, IndexOf(q, x)) ELSE q, Done)
         [] e.op = "clear" -> W(st, <<>>, Done)
         [] e.op = "find" -> R(st, Val(IndexOf(q, x) - 1))
         [] e.op = "index" -> R(st, IF HasItem(q, x) THEN Val(IndexOf(q, x) - 1) ELSE Exc("IndexError"))
         [] e.op = "has" -> R(st, Val(HasItem(q, x)))
         [] e.op = "getidx" -> R(st, IF p = 0 THEN Exc("IndexError") ELSE Val(q[p]))
         [] e.op = "delidx" -> IF p = 0 THEN R(st, Exc("IndexError")) ELSE W(st, DropAt(q, p), Done)
         [] e.op = "setidx" -> IF p = 0 THEN R(st, Exc("IndexError")) ELSE W(st, PutAt(q, p, x), Done)
         [] e.op = "assign" -> H(st, IF e.q = <<>> THEN None ELSE DumpList(e.q))
\* operations of dictionaries on d; Back(st, d, ret) stores the result
DictStep(st, e, d, Back(_, _, _)) ==
    CASE e.op = "put" -> Back(st, DictPut(d, e.k, e.v), Done)
      [] e.op = "del" -> IF HasKey(d, e.k) THEN Back(st, DropKey(d, e.k), Done) ELSE R(st, Exc("KeyError"))
      [] e.op = "pop" -> IF HasKey(d, e.k) THEN Back(st, DropKey(d, e.k), Val(Value(d, e.k))) ELSE R(st, Exc("KeyError"))
      [] e.op = "popd" -> IF HasKey(d, e.k) THEN Back(st, DropKey(d, e.k), Val(Value(d, e.k))) ELSE R(st, Val("dflt"))
      [] e.op = "setdefault" -> IF HasKey(d, e.k) THEN R(st, Val(Value(d, e.k))) ELSE Back(st, DictPut(d, e.k, e.v), Val(e.v))
      [] e.op \in {"dupdate", "ior"} -> Back(st, PutAll(d, e.items, 1), Done)
      [] e.op = "popitem" -> IF d = <<>> THEN R(st, Exc("KeyError"))
                             ELSE Back(st, SubSeq(d, 1, Len(d) - 1), Val(d[Len(d)]))
      [] e.op = "dclear" -> Back(st, <<>>, Done)
BackView(st, d, ret) == W(st, d, ret)
BackAuth(st, d, ret) == W(st, [st.view EXCEPT !.d = d], ret)
\* start and stop can be set one by one: the header follows when the range is valid again
Valid(v) == ValidRange(v.start, v.stop, v.length)
Settled(st) == st.kind = "crange" => Valid(st.view)
CrStep(st, e) ==
    LET v == st.view IN
    CASE e.op = "crset" ->
            IF ValidRange(e.start, e.stop, e.length)
            THEN W(st, [k |-> "crange", units |-> e.units, start |-> e.start, stop |-> e.stop, length |-> e.length], Done)
            ELSE R(st, Exc("ValueError"))
      [] e.op = "unset" -> W(st, NoRange, Done)
      [] e.op = "crattr" ->
            LET w == [v EXCEPT ![e.attr] = e.n] IN
            IF Valid(w) THEN W(st, w, Done) ELSE R([st EXCEPT !.view = w], Done)
      [] e.op = "crunits" -> LET w == [v EXCEPT !.units = e.units]
                                IN IF Valid(w) THEN W(st, w, Done) ELSE R([st EXCEPT !.view = w], Done)
      [] e.op = "crassign" -> H(st, IF e.units = None THEN None
             ELSE DumpContentRange([k |-> "crange", units |-> e.units, start |-> e.start, stop |-> e.stop, length |-> e.length]))
SetOf(d, k) == IF HasKey(d, k) THEN Parse("set", Value(d, k)) ELSE <<>>
AuthStep(st, e) ==
    LET v == st.view
        d == v.d
    IN CASE e.op = "type" -> W(st, [v EXCEPT !.type = e.v], Done)
         [] e.op = "attr" -> W(st, [v EXCEPT !.d = IF e.v = None THEN DropKey(d, e.k) ELSE DictPut(d, e.k, e.v)], Done)
         [] e.op = "stale" -> W(st, [v EXCEPT !.d = IF e.v = None THEN DropKey(d, "stale") ELSE DictPut(d, "stale", e.v)], Done)
         [] e.op = "basic" -> W(st, [type |-> "basic", d |-> << <<"realm", e.v>> >>], Done)
         [] e.op = "digest" ->
                W(st, [type |-> "digest",
                       d |-> << <<"realm", e.v>>, <<"nonce", e.nonce>>, <<"qop", DumpList(e.q)>> >>
                             \o (IF e.stale THEN << <<"stale", "TRUE">> >> ELSE <<>>)
                             \o (IF e.opaque = None THEN <<>> ELSE << <<"opaque", e.opaque>> >>)
                             \o (IF e.algorithm = None THEN <<>> ELSE << <<"algorithm", e.algorithm>> >>)], Done)
         \* the set under k, with an item added or removed
         [] e.op = "subadd" ->
                IF HasItem(SetOf(d, e.k), e.v) THEN R(st, Done)
                ELSE W(st, [v EXCEPT !.d = DictPut(d, e.k, DumpList(Append(SetOf(d, e.k), e.v)))], Done)
         [] e.op = "subdiscard" ->
                LET q == SetOf(d, e.k) IN
                IF ~HasItem(q, e.v) THEN R(st, Done)
                ELSE LET q2 == DropAt(q, IndexOf(q, e.v))
                     IN W(st, [v EXCEPT !.d = IF q2 = <<>> THEN DropKey(d, e.k) ELSE DictPut(d, e.k, DumpList(q2))], Done)
         [] e.op = "aclear" -> W(st, NoAuth, Done)
         [] OTHER -> DictStep(st, e, d, BackAuth)
Step(st, e) ==
    IF e.op = "raw" THEN H(st, e.text)
    ELSE IF e.op = "refetch" THEN H(st, st.text)
    ELSE CASE st.kind = "set" -> SetStep(st, e)
           [] st.kind = "cc" -> IF e.op = "prop" THEN W(st, SetProp(st.view, e.p, e.v), Done) ELSE DictStep(st, e, st.view, BackView)
           [] st.kind = "params" -> IF e.op = "mimetype" THEN H(st, e.v \o "; charset=utf-8") ELSE DictStep(st, e, st.view, BackView)
           [] st.kind = "crange" -> CrStep(st, e)
           [] st.kind = "auth" -> AuthStep(st, e)

Show(kind, v) ==
    CASE kind = "auth" -> [type |-> EffType(v), d |-> v.d]
      [] kind = "crange" -> IF v.units = None THEN NoRange ELSE v
      [] OTHER -> v
StaleOf(a) == IF ~HasKey(a.d, "stale") \/ Value(a.d, "stale") = None THEN None ELSE Lower(Value(a.d, "stale")) = "true"
Extra(st) ==
    CASE st.kind = "cc" -> [i \in 1..Len(CcProps) |-> PropOf(st.view, CcProps[i])]
      [] st.kind = "params" -> <<Mime(st.text)>>
      [] st.kind = "set" -> <<Len(st.view), [SET |-> {Lower(st.view[i]) : i \in 1..Len(st.view)}]>>
      [] st.kind = "auth" -> <<StaleOf(st.view), SetOf(st.view.d, "qop"), SetOf(st.view.d, "domain")>>
      [] OTHER -> <<>>
Obs(st) ==
    [present |-> st.text # None, view |-> Show(st.kind, st.view), text |-> IF Settled(st) THEN ViewText(st.kind, st.view) ELSE "",
     parsed |-> Show(st.kind, Parse(st.kind, st.text)), others |-> TRUE, agree |-> TRUE, extra |-> Extra(st)]

\* C14
StateInv(st) ==
    /\ Settled(st) => Show(st.kind, Parse(st.kind, st.text)) = Show(st.kind, st.view)
    /\ st.kind = "set" => \A i, j \in 1..Len(st.view) : i # j => Lower(st.view[i]) # Lower(st.view[j])
StepInv(st, e, r) ==
    /\ Empty(st.kind, r.st.view) /\ Settled(r.st) /\ e.op \notin {"raw", "refetch"} /\ r.st.view # st.view => r.st.text = None
    /\ r.ret.k = "exc" => r.st = st
=============================================================================
