---------------------------- MODULE HeaderForms ----------------------------
(***************************************************************************)
(* Structured header values: dumping a value and parsing the text gives    *)
(* the value back; parsing any text gives a value or nothing.  Every       *)
(* operation is a function of its argument, so the state is empty.         *)
(***************************************************************************)
EXTENDS Ranges

InitState(c) == 0
InitRet(c) == Done
Opts(o) == [name |-> o.name, opts |-> DictSet(o.opts)]
ShowRange(r) == IF r.k = "none" THEN None ELSE r
Step(st, e) ==
    LET ret ==
        CASE e.op = "quote" -> Val(<<Quote(e.v), e.v, Quoted(e.v), e.v>>)
          [] e.op = "unquote" -> Val(<<Unquote(e.v, FALSE), Unquote(e.v, TRUE)>>)
          [] e.op = "list" -> Val(<<DumpList(e.q), e.q>>)
          [] e.op = "dict" -> Val(<<DumpDict(e.d), DictSet(e.d)>>)
          [] e.op = "options" -> Val(<<DumpOptions(e.name, e.d), Opts([name |-> e.name, opts |-> e.d])>>)
          [] e.op = "plist" -> Val(ParseList(e.text))
          [] e.op = "pdict" -> Val(DictSet(ParseDict(e.text)))
          [] e.op = "poptions" -> Val(Opts(ParseOptions(e.text)))
          [] e.op = "ifrange" -> Val(<<"\"" \o e.v \o "\"", e.v, e.v>>)
          [] e.op = "range" -> Val(<<DumpRange(e.r), e.r>>)
          [] e.op = "prange" ->
                LET r == ParseRange(e.text)
                IN Val(<<ShowRange(r), [i \in 1..Len(e.lengths) |-> Resolve(r, e.lengths[i])]>>)
          [] e.op = "crange" -> Val(<<DumpContentRange(e.r), e.r>>)
          [] e.op = "pcrange" -> Val(ShowRange(ParseContentRange(e.text)))
          [] e.op = "newcrange" ->
                IF ~ValidRange(e.start, e.stop, e.length) THEN Exc("ValueError")
                ELSE Val(DumpContentRange([units |-> "bytes", start |-> e.start, stop |-> e.stop, length |-> e.length]))
    IN R(st, ret)
Obs(s) == 0
StateInv(s) == TRUE

\* C15
Plain(v) == ~StartsWith(v, "\\")
StepInv(s, e, r) ==
    /\ e.op = "quote" => Unquote(Quote(e.v), FALSE) = e.v /\ Unquote(Quoted(e.v), FALSE) = e.v
    /\ e.op = "list" => ParseList(DumpList(e.q)) = e.q
    /\ e.op = "dict" => DictSet(ParseDict(DumpDict(e.d))) = DictSet(e.d)
    /\ e.op = "options" => Opts(ParseOptions(DumpOptions(e.name, e.d))) = Opts([name |-> e.name, opts |-> e.d])
    /\ e.op = "range" => ParseRange(DumpRange(e.r)) = e.r
    /\ e.op = "crange" => ParseContentRange(DumpContentRange(e.r)) = e.r
    /\ e.op = "prange" =>
          \A i \in 1..Len(e.lengths) : LET x == r.ret.v[2][i] n == e.lengths[i] IN
              /\ x # <<>> => 0 <= x[1] /\ x[1] < x[2] /\ x[2] <= n
              /\ x # <<>> => ParseRange(e.text).k = "range"
    /\ e.op = "prange" /\ ParseRange(e.text).k = "range" => ParseRange(DumpRange(ParseRange(e.text))) = ParseRange(e.text)
=============================================================================
