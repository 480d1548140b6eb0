------------------------------- MODULE Mounts -------------------------------
(* Applications mounted below paths, and files shared below paths.           *)
EXTENDS ETags

(* ---- mounted applications -----------------------------------------------*)
\* mounts: sequence of [prefix, inner], inner: prefixes of a dispatcher mounted there
Under(path, prefix) == path = prefix \/ StartsWith(path, prefix \o "/")
\* the longest of the prefixes above the path; "" stands for the default
Longest(path, S) ==
    LET T == {p \in S : Under(path, p)}
    IN IF T = {} THEN "" ELSE CHOOSE p \in T : \A q \in T : Len(q) <= Len(p)
Pick(ms, path) == IF ms = <<>> THEN "" ELSE Longest(path, {ms[i].prefix : i \in 1..Len(ms)})
InnerOf(ms, p) == LET i == FirstIdx(ms, LAMBDA x : x.prefix = p) IN IF i = 0 THEN <<>> ELSE ms[i].inner
HasMount(ms, p) == \E i \in 1..Len(ms) : ms[i].prefix = p
Dispatch(ms, script, path) ==
    LET p == Pick(ms, path)
        rest == From(path, Len(p) + 1)
        inner == InnerOf(ms, p)
        q == IF inner = <<>> THEN "" ELSE Longest(rest, Range(inner))
        name == IF ~HasMount(ms, p) THEN "default"
                ELSE IF inner = <<>> THEN "app:" \o p
                ELSE IF q \in Range(inner) THEN "app:" \o p \o "|" \o q ELSE "inner:" \o p
    IN [app |-> name, script |-> script \o p \o q, path |-> From(rest, Len(q) + 1)]

(* ---- shared files -------------------------------------------------------*)
Dirs == {"", "pub", "pub/sub", "pub2"}
FirstFiles == << <<"pub/a.txt", "first">>, <<"pub/b.html", "<p>">>, <<"pub/sub/c.css", "c">>, <<"pub/sub/a.txt", "other a">>,
                 <<"pub/.hid", "h">>, <<"pub/e.txt", "">>, <<"secret.txt", "s3cret">>, <<"pub2/s.txt", "s2">>, <<"pub/a b.bin", "bb">> >>
Parts(path) == LET q == Split(path, "/") IN SelectSeq(q, LAMBDA x : x # "" /\ x # "..")
Cleaned(path) == "/" \o Join(Parts(path), "/")
Has(fs, p) == \E i \in 1..Len(fs) : fs[i].path = p
Get(fs, p) == fs[FirstIdx(fs, LAMBDA x : x.path = p)]
\* the file a relative path leads to from a directory; None if none
RECURSIVE Walk(_, _, _)
Walk(fs, cur, q) ==
    IF q = <<>> THEN (IF Has(fs, cur) THEN cur ELSE None)
    ELSE IF cur \notin Dirs THEN None
    ELSE IF Head(q) = "." THEN Walk(fs, cur, Tail(q))
    ELSE Walk(fs, IF cur = "" THEN Head(q) ELSE cur \o "/" \o Head(q), Tail(q))
Load(fs, x, path) ==
    LET pre == IF EndsWith(x.prefix, "/") THEN x.prefix ELSE x.prefix \o "/"
        rel == From(path, Len(pre) + 1)
    IN IF x.prefix # path /\ ~StartsWith(path, pre) THEN None
       ELSE IF x.kind = "file" THEN x.target
       ELSE IF x.prefix = path THEN None
       ELSE LET q == IF rel = "" THEN <<>> ELSE Split(rel, "/") IN Walk(fs, x.target, q)
RECURSIVE FindFile(_, _, _)
FindFile(fs, xs, path) ==
    IF xs = <<>> THEN None
    ELSE LET f == Load(fs, Head(xs), path) IN IF f # None THEN f ELSE FindFile(fs, Tail(xs), path)
Base(p) == From(p, RFind(p, "/") + 1)
\* file name patterns: * any text, ? any character
RECURSIVE Glob(_, _)
Glob(p, s) ==
    IF p = "" THEN s = ""
    ELSE IF Ch(p, 1) = "*" THEN Glob(From(p, 2), s) \/ (s # "" /\ Glob(p, From(s, 2)))
    ELSE s # "" /\ (Ch(p, 1) = "?" \/ Ch(p, 1) = Ch(s, 1)) /\ Glob(From(p, 2), From(s, 2))
Allowed(c, name) == \A i \in 1..Len(c.disallow) : ~Glob(c.disallow[i], name)
TypeOf(c, name) ==
    LET d == RFind(name, ".") ext == IF d > 1 THEN From(name, d) ELSE ""
    IN CASE ext = ".txt" -> "text/plain" [] ext = ".html" -> "text/html" [] ext = ".css" -> "text/css"
         [] ext = ".bin" -> "application/octet-stream" [] OTHER -> c.fallback
TagFor(f) == QuoteTag("t" \o NatText(f.m) \o "-" \o NatText(Len(f.text)) \o "-" \o Base(f.path), FALSE)

\* seen: per path the validators a client has got, oldest first
InitState(c) == [c |-> c, clock |-> 0, seen |-> <<>>,
                 fs |-> [i \in 1..Len(FirstFiles) |-> [path |-> FirstFiles[i][1], text |-> FirstFiles[i][2], m |-> 0]]]
InitRet(c) == Done
SeenOf(st, path) == SelectSeq(st.seen, LAMBDA x : x.url = path)
Inm(st, e) ==
    LET q == SeenOf(st, e.path)
    IN CASE e.inm = "none" -> None [] e.inm = "star" -> "*" [] e.inm = "other" -> "\"other\""
         [] e.inm = "last" -> IF q = <<>> THEN None ELSE q[Len(q)].tag
         [] e.inm = "first" -> IF q = <<>> THEN None ELSE q[1].tag
         [] e.inm = "both" -> IF q = <<>> THEN None ELSE q[1].tag \o ", " \o q[Len(q)].tag
Ims(st, e) ==
    LET q == SeenOf(st, e.path)
        ok(n) == [k |-> "ok", s |-> n] no == [k |-> "none", s |-> 0]
    IN CASE e.ims = "none" -> no [] e.ims = "past" -> ok(0 - 100) [] e.ims = "future" -> ok(1000000)
         [] e.ims = "last" -> IF q = <<>> THEN no ELSE ok(q[Len(q)].m)
         [] e.ims = "first" -> IF q = <<>> THEN no ELSE ok(q[1].m)
Shared(st, e) ==
    LET c == st.c
        p == FindFile(st.fs, c.exports, Cleaned(e.path))
        f == Get(st.fs, p)
        tag == TagFor(f)
        fresh == c.cache /\ e.method \in {"GET", "HEAD"} /\ Unmodified(e.method, Inm(st, e), Ims(st, e), tag, f.m)
    IN IF p = None THEN R(st, Val([k |-> "app", path |-> e.path]))
       ELSE IF ~Allowed(c, Base(p)) THEN R(st, Val([k |-> "app", path |-> e.path]))
       ELSE R(IF c.cache /\ ~fresh THEN [st EXCEPT !.seen = Append(@, [url |-> e.path, tag |-> tag, m |-> f.m, text |-> f.text])] ELSE st,
              Val(IF fresh THEN [k |-> "unchanged", cache |-> "max-age=" \o NatText(c.timeout) \o ", public"]
                  ELSE [k |-> "file", text |-> f.text, type |-> TypeOf(c, Base(p)), length |-> NatText(Len(f.text)), m |-> f.m,
                        tag |-> c.cache, cache |-> IF c.cache THEN "max-age=" \o NatText(c.timeout) \o ", public" ELSE "public",
                        expires |-> c.cache]))
Step(st, e) ==
    CASE e.op = "dispatch" -> R(st, Val(Dispatch(st.c.mounts, e.script, e.path)))
      [] e.op = "get" -> Shared(st, e)
      [] e.op = "write" ->
            LET n == st.clock + 10
                f == [path |-> e.path, text |-> e.text, m |-> n]
                rest == SelectSeq(st.fs, LAMBDA x : x.path # e.path)
            IN R([st EXCEPT !.clock = n, !.fs = Append(rest, f)], Done)
      [] e.op = "remove" -> R([st EXCEPT !.fs = SelectSeq(@, LAMBDA x : x.path # e.path)], Done)
Obs(st) == 0

\* C18
StateInv(st) == TRUE
StepInv(st, e, r) ==
    /\ e.op = "dispatch" =>
        LET v == r.ret.v IN
        /\ v.script \o v.path = e.script \o e.path
        /\ v.path = "" \/ StartsWith(v.path, "/") \/ ~StartsWith(e.path, "/")
        /\ \A i \in 1..Len(st.c.mounts) : Under(e.path, st.c.mounts[i].prefix) => Len(v.script) >= Len(e.script \o st.c.mounts[i].prefix)
    /\ e.op = "get" =>
        LET v == r.ret.v IN
        \* only the content of a file inside an export, and one that is allowed
        /\ v.k = "file" => \E i \in 1..Len(st.fs), j \in 1..Len(st.c.exports) :
                LET f == st.fs[i] x == st.c.exports[j] IN
                f.text = v.text /\ (f.path = x.target \/ (x.kind # "file" /\ StartsWith(f.path, x.target \o (IF x.target = "" THEN "" ELSE "/")))) /\ Allowed(st.c, Base(f.path))
        \* a client told that nothing changed has seen this content
        /\ v.k = "unchanged" /\ e.inm \in {"last", "first", "both"} =>
                LET f == Get(st.fs, FindFile(st.fs, st.c.exports, Cleaned(e.path))) q == SeenOf(st, e.path)
                IN q # <<>> => \E i \in 1..Len(q) : q[i].text = f.text
=============================================================================
