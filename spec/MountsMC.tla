------------------------------ MODULE MountsMC ------------------------------
EXTENDS Mounts
CONSTANTS McDepth, McSegs
RECURSIVE Paths(_, _)
Paths(A, n) == IF n = 0 THEN {""} ELSE LET T == Paths(A, n - 1) IN T \union {"/" \o a \o t : a \in A, t \in T}
Cfg(ms, xs, dis, ca) == [mounts |-> ms, exports |-> xs, disallow |-> dis, cache |-> ca, timeout |-> 60, fallback |-> "x/y", single |-> FALSE]
M(p) == [prefix |-> p, inner |-> <<>>]
MountTables == {<<>>, <<M("/a")>>, <<M("/a"), M("/a/b"), M("/ab")>>, <<M(""), M("/a")>>, <<M("/a/"), M("/b")>>,
                <<[prefix |-> "/a", inner |-> <<"/b", "/a">>], M("/a/b/a")>>, <<[prefix |-> "", inner |-> <<"/a">>]>>}
X(p, k, t) == [prefix |-> p, kind |-> k, target |-> t]
ExportTables == {<<X("/s", "dir", "pub")>>, <<X("/", "dir", "pub/sub"), X("/s", "dir", "pub")>>, <<X("/s/", "dir", "pub"), X("/s", "dir", "pub2")>>,
                 <<X("/s", "file", "pub/a.txt")>>, <<X("", "dir", "pub")>>, <<X("/s", "pkg", "pub")>>}
McInits == {Cfg(ms, <<>>, <<>>, TRUE) : ms \in MountTables}
    \union {Cfg(<<>>, xs, dis, ca) : xs \in ExportTables, dis \in {<<>>, <<"*.css", "?.txt">>}, ca \in BOOLEAN}
DispPaths == TLCEval(Paths({"", "a", "b", "ab"}, McSegs))
FilePaths == TLCEval(Paths({"", "s", "a.txt", "sub", "..", "."}, McSegs) \union {"/s/" \o t : t \in {"c.css", "sub/c.css", ".hid", "b.html", "../secret.txt", "..\\secret.txt", "....//secret.txt", "s.txt", "//etc/passwd", "sub/..", "a.txt/", "a.txt/.", "nope/a.txt", "A.TXT"}})
Fetch(paths, inms, imss) == [op : {"get"}, path : paths, method : {"GET"}, inm : inms, ims : imss]
McEvents(s) ==
    IF s.c.exports = <<>> THEN [op : {"dispatch"}, path : DispPaths, script : {"", "/root"}]
    ELSE IF s.clock = 0 /\ s.seen = <<>> THEN Fetch(FilePaths, {"none"}, {"none"}) \union [op : {"write"}, path : {"pub/a.txt"}, text : {"new"}]
    ELSE Fetch({s.seen[i].url : i \in 1..Len(s.seen)} \cap {"/s/a.txt", "/s", "/a.txt"}, {"none", "last", "first", "other", "star"}, {"none", "last", "first", "past"})
        \union [op : {"write"}, path : {"pub/a.txt"}, text : {"first", "newer"}] \union (IF s.c.exports[1].kind = "file" THEN {} ELSE [op : {"remove"}, path : {"pub/a.txt"}])
McConstraint(s) == Len(s.seen) <= 3 /\ s.clock <= 20
McKey(c) == 0
=============================================================================
