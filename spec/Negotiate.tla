------------------------------ MODULE Negotiate ------------------------------
(***************************************************************************)
(* Content negotiation: which of the available representations answers the *)
(* client's Accept, Accept-Language and Accept-Charset headers.            *)
(*                                                                         *)
(* A representation is [ct, lang, cs, qs]: its content type, language and  *)
(* charset (None: not given) and the server quality.  Each given attribute *)
(* is a value [v, qs] with an own server quality.  Qualities are integers  *)
(* in thousandths.                                                         *)
(***************************************************************************)
EXTENDS HttpText, TLC

NotAcceptable == "NotAcceptable"

\* ---- header text
\* a quality: up to three decimals, cut to 0..1
IsQ(t) == LET p == Split(t, ".") IN Len(p) \in {1, 2} /\ \A i \in 1..Len(p) : IsNat(p[i]) /\ Len(p[i]) <= 3
QOf(t) == LET p == Split(t, ".")
              w == NatOf(p[1])
              f == IF Len(p) = 1 THEN 0 ELSE NatOf(p[2] \o Rep("0", 3 - Len(p[2])))
          IN IF w >= 1 THEN 1000 ELSE f

IsToken(t) == t # "" /\ \A i \in 1..Len(t) :
    \/ Ch(t, i) \in AlnumSet
    \/ Ch(t, i) = "-" /\ i > 1 /\ i < Len(t) /\ Ch(t, i - 1) \in AlnumSet
ValidValue(kind, v) ==
    IF kind = "ct"
    THEN LET i == Find(v, "/")
         IN /\ i > 1 /\ i < Len(v)
            /\ UpTo(v, i - 1) = "*" \/ IsToken(UpTo(v, i - 1))
            /\ Ch(v, i + 1) \in AlnumSet \union {"*"}
    ELSE v = "*" \/ (v # "" /\ Ch(v, 1) \in AlnumSet)

\* one range: [ok, v, q, params]
LastOf(ps, k) == LET S == {i \in 1..Len(ps) : ps[i][1] = k} IN IF S = {} THEN None ELSE ps[MaxOf(S)][2]
ParseRange(kind, text) ==
    LET parts == Split(text, ";")
        v == Strip(parts[1], White)
        raw == Tail(parts)
        okp == \A i \in 1..Len(raw) : Contains(raw[i], "=")
        ps == IF ~okp THEN <<>>
              ELSE [i \in 1..Len(raw) |-> LET j == Find(raw[i], "=")
                                          IN <<Strip(UpTo(raw[i], j - 1), White), Strip(From(raw[i], j + 1), White)>>]
        others == SelectSeq(ps, LAMBDA x : x[1] # "q")
        q == LastOf(ps, "q")
        ok == okp /\ ValidValue(kind, v) /\ (q = None \/ IsQ(q)) /\ (kind = "ct" \/ others = <<>>)
    IN [ok |-> ok, v |-> v, q |-> IF q = None \/ ~ok THEN 1000 ELSE QOf(q),
        params |-> {<<others[i][1], LastOf(others, others[i][1])>> : i \in 1..Len(others)}]
ParseHeader(kind, text) ==
    LET items == Split(text, ",")
        rs == TLCEval([i \in 1..Len(items) |-> ParseRange(kind, items[i])])
    IN [ok |-> \A i \in 1..Len(rs) : rs[i].ok, rs |-> rs]
Anything(kind) == <<[ok |-> TRUE, v |-> IF kind = "ct" THEN "*/*" ELSE "*", q |-> 1000, params |-> {}]>>
\* an absent or malformed header asks for nothing in particular
Ranges(kind, text) ==
    IF text = None THEN Anything(kind)
    ELSE LET p == ParseHeader(kind, text) IN IF p.ok THEN p.rs ELSE Anything(kind)

\* ---- how well a range covers a value: -1 not at all, else more is closer
TypeOf(v) == UpTo(v, Find(v, "/") - 1)
SubOf(v) == From(v, Find(v, "/") + 1)
Words(v) == Len(Split(v, "-"))
Closeness(kind, v, r) ==
    CASE kind = "ct" ->
            LET t == IF TypeOf(r) = TypeOf(v) THEN 2 ELSE IF TypeOf(r) = "*" THEN 0 ELSE -9
                s == IF SubOf(r) = SubOf(v) THEN 1 ELSE IF SubOf(r) = "*" THEN 0 ELSE -9
            IN IF t + s < 0 THEN -1 ELSE t + s
      [] kind = "lang" ->
            \* few words of the language left open first, then many words named
            IF v = r THEN 900 + Words(r)
            ELSE IF StartsWith(v, r \o "-") THEN 900 - 20 * (Words(v) - Words(r)) + Words(r)
            ELSE IF r = "*" THEN 900 - 20 * Words(v)
            ELSE -1
      [] kind = "cs" -> IF r = "*" THEN 0 ELSE IF v = r THEN 1 ELSE -1

\* The closest ranges decide; the best quality among equally close ones.
\* Grade: <<closeness, client quality>>, <<-1, 0>> if no range covers it.
RECURSIVE GradeFrom(_, _, _, _, _)
GradeFrom(kind, v, rs, i, best) ==
    IF i > Len(rs) THEN best
    ELSE LET c == Closeness(kind, v, rs[i].v)
         IN GradeFrom(kind, v, rs, i + 1,
                IF c > best[1] \/ (c = best[1] /\ c >= 0 /\ rs[i].q > best[2]) THEN <<c, rs[i].q>> ELSE best)
Grade(kind, a, rs) ==
    IF a.v = None THEN [out |-> FALSE, s |-> <<-1, 0>>]
    ELSE LET g == TLCEval(GradeFrom(kind, a.v, rs, 1, <<-1, 0>>))
         IN [out |-> g[1] < 0 \/ g[2] = 0,       \* the client does not want this value at all
             s |-> <<g[1], g[2] * a.qs>>]

\* ---- representations
\* [out, s] of every representation
Grades(reprs, ac, al, acs) ==
    TLCEval([i \in 1..Len(reprs) |->
        LET t == Grade("ct", reprs[i].ct, ac) l == Grade("lang", reprs[i].lang, al) c == Grade("cs", reprs[i].cs, acs)
        IN [out |-> t.out \/ l.out \/ c.out, s |-> t.s \o l.s \o c.s \o <<reprs[i].qs>>]])
RECURSIVE LexGreater(_, _)
LexGreater(a, b) ==
    IF a = <<>> THEN FALSE
    ELSE IF a[1] # b[1] THEN a[1] > b[1]
    ELSE LexGreater(Tail(a), Tail(b))

\* position of the representation to use in the list; 0: none is acceptable
RECURSIVE SelectFrom(_, _, _)
SelectFrom(gs, i, best) ==
    IF i > Len(gs) THEN best
    ELSE IF gs[i].out THEN SelectFrom(gs, i + 1, best)
    ELSE IF best = 0 THEN SelectFrom(gs, i + 1, i)
    ELSE SelectFrom(gs, i + 1, IF LexGreater(gs[best].s, gs[i].s) THEN best ELSE i)   \* equals: the later one
GradesFor(reprs, accept, lang, cs) ==
    LET ac == TLCEval(Ranges("ct", accept)) al == TLCEval(Ranges("lang", lang)) acs == TLCEval(Ranges("cs", cs))
    IN Grades(reprs, ac, al, acs)
Select(reprs, accept, lang, cs) == SelectFrom(GradesFor(reprs, accept, lang, cs), 1, 0)

Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]

=============================================================================
