------------------------------ MODULE Streams ------------------------------
(* Reading a request body: the limited stream around the server's input,     *)
(* the choice of that stream, and iterating lines, separated chunks and file *)
(* blocks.  The data are texts; the driver uses bytes or text for them.      *)
EXTENDS Integers, Sequences, FiniteSets, Str, TLC

Min2(a, b) == IF a < b THEN a ELSE b
Gone == Exc("ClientDisconnected")

(* ---- the limited stream -------------------------------------------------*)
(* up: characters taken from the server's stream, pos: characters handed     *)
(* out, broken: the server's stream fails from now on.                       *)
InitState(c) == [data |-> c.data, limit |-> c.limit, quiet |-> c.quiet, up |-> 0, pos |-> 0, broken |-> FALSE, out |-> ""]
InitRet(c) == Done

AtEnd(st) == st.pos >= st.limit
Give(st, t, newup) == R([st EXCEPT !.up = newup, !.pos = @ + Len(t), !.out = @ \o t], Val(t))
Lost(st, newup) == R([st EXCEPT !.up = newup], IF st.quiet THEN Val("") ELSE Gone)
ReadN(st, n) ==
    LET want == IF n < 0 THEN st.limit - st.pos ELSE Min2(n, st.limit - st.pos)
        t == Mid(st.data, st.up + 1, Min2(Len(st.data), st.up + want))
    IN IF AtEnd(st) THEN R(st, Val(""))
       ELSE IF st.broken /\ want > 0 THEN Lost(st, st.up)
       ELSE IF Len(t) < want THEN Lost(st, st.up + Len(t))
       ELSE Give(st, t, st.up + Len(t))
ReadLine(st, n) ==
    LET want == IF n < 0 THEN st.limit - st.pos ELSE Min2(n, st.limit - st.pos)
        t0 == Mid(st.data, st.up + 1, Min2(Len(st.data), st.up + want))
        nl == Find(t0, "\n")
        t == IF nl = 0 THEN t0 ELSE UpTo(t0, nl)
    IN IF AtEnd(st) THEN R(st, Val(""))
       ELSE IF st.broken /\ want > 0 THEN Lost(st, st.up)
       ELSE IF want > 0 /\ t = "" THEN Lost(st, st.up)
       ELSE Give(st, t, st.up + Len(t))
\* lines until at least n characters (n < 0: everything) were read; none is
\* longer than n
RECURSIVE LinesTo(_, _, _, _)
LinesTo(st, n, end, acc) ==
    IF st.pos >= end THEN R(st, Val(acc))
    ELSE LET r == ReadLine(st, n)
         IN IF r.ret.k = "exc" THEN r
            ELSE IF r.ret.v = "" THEN R(r.st, Val(acc))
            ELSE LinesTo(r.st, n, end, Append(acc, r.ret.v))
ReadLines(st, n) == LinesTo(st, n, IF n < 0 THEN st.limit ELSE Min2(st.limit, st.pos + n), <<>>)
RECURSIVE ExhaustBy(_, _)
ExhaustBy(st, n) ==
    IF AtEnd(st) THEN R(st, Done)
    ELSE LET r == ReadN(st, n)
         IN IF r.ret.k = "exc" THEN r
            ELSE IF r.ret.v = "" THEN R(r.st, Done)
            ELSE ExhaustBy(r.st, n)
Iterate(st) == LET r == ReadLine(st, -1) IN IF r.ret.k = "val" /\ r.ret.v = "" THEN R(r.st, Exc("StopIteration")) ELSE r

(* ---- lines and chunks ---------------------------------------------------*)
\* a line ends with CR LF, LF or CR
RECURSIVE LinesOf(_)
LinesOf(s) ==
    IF s = "" THEN <<>>
    ELSE LET S == {i \in 1..Len(s) : Ch(s, i) \in {"\r", "\n"}}
         IN IF S = {} THEN <<s>>
            ELSE LET i == MinOf(S)
                     j == IF Ch(s, i) = "\r" /\ i < Len(s) /\ Ch(s, i + 1) = "\n" THEN i + 1 ELSE i
                 IN <<UpTo(s, j)>> \o LinesOf(From(s, j + 1))
ChunksOf(s, sep) == IF s = "" THEN <<>> ELSE Split(s, sep)
\* what a source delivers: everything, or no more than the limit
Content(e) == IF e.src = "limit" THEN UpTo(e.text, e.limit) ELSE e.text
TooShort(e) == e.src = "limit" /\ e.limit > Len(e.text)

(* ---- choosing the stream of a request -----------------------------------*)
\* the announced length; -1: none or not a number
LengthOf(t) ==
    LET s == Strip(t, White)
        neg == StartsWith(s, "-")
        d == IF neg \/ StartsWith(s, "+") THEN From(s, 2) ELSE s
    IN IF t = None \/ ~IsNat(d) THEN -1 ELSE IF neg THEN 0 ELSE NatOf(d)
\* what reading everything gives, and what is left in the server's stream
Input(e) ==
    LET n == LengthOf(e.length)
    IN IF e.terminated \/ (n < 0 /\ ~e.safe) THEN Val(<<e.text, "">>)
       ELSE IF n < 0 THEN Val(<<"", e.text>>)
       ELSE IF n > Len(e.text) THEN Gone
       ELSE Val(<<UpTo(e.text, n), From(e.text, n + 1)>>)

Step(st, e) ==
    CASE e.op = "read" -> ReadN(st, e.n)
      [] e.op = "readline" -> ReadLine(st, e.n)
      [] e.op = "readlines" -> ReadLines(st, e.n)
      [] e.op = "next" -> Iterate(st)
      [] e.op = "exhaust" -> ExhaustBy(st, e.n)
      [] e.op = "break" -> R([st EXCEPT !.broken = TRUE], Done)
      [] e.op = "lines" -> R(st, IF TooShort(e) THEN Gone ELSE Val(LinesOf(Content(e))))
      [] e.op = "chunks" -> R(st, IF TooShort(e) THEN Gone ELSE Val(ChunksOf(Content(e), e.sep)))
      [] e.op = "blocks" -> R(st, Val(e.text))
      [] e.op = "input" -> R(st, Input(e))
Obs(st) == [tell |-> st.pos, exhausted |-> AtEnd(st), taken |-> st.up]

\* C17
StateInv(st) ==
    /\ st.pos <= st.limit /\ st.up <= st.limit
    /\ st.out = UpTo(st.data, st.pos)
    /\ st.pos <= st.up
StepInv(st, e, r) ==
    /\ e.op \in {"read", "readline"} /\ r.ret.k = "val" /\ e.n >= 0 => Len(r.ret.v) <= e.n
    \* an end of the data before the end of the limit is not taken for the end
    /\ e.op = "read" /\ e.n < 0 /\ r.ret.k = "val" /\ ~st.quiet => r.st.pos = st.limit
    /\ e.op \in {"lines", "chunks"} /\ r.ret.k = "val" =>
        Join(r.ret.v, IF e.op = "lines" THEN "" ELSE e.sep) = Content(e)
    /\ e.op = "lines" /\ r.ret.k = "val" =>
        \A i \in 1..Len(r.ret.v) : LET t == r.ret.v[i] IN t # "" /\ (i < Len(r.ret.v) => Ch(t, Len(t)) \in {"\r", "\n"})
=============================================================================
