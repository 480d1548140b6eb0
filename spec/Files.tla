------------------------------- MODULE Files -------------------------------
(***************************************************************************)
(* Uploaded files.  A file storage wraps a stream with the name and the    *)
(* headers it was sent with.  Reading, iterating, saving and sending it    *)
(* again go through the stream's one position.                             *)
(*                                                                         *)
(* Configuration c: [how, kind, data, sname, filename, ct, cl, hct, hcl]   *)
(*   how      "direct": constructed; "add": added to the files of a test   *)
(*            request; "path": likewise, as the name of a file;            *)
(*            "given": constructed, then added                             *)
(*   kind     what the stream is: "none", "memory", "disk", "temporary"    *)
(*   sname    the name the stream says it has, if any                      *)
(*   ct, cl   content type and length given; hct, hcl those in the headers *)
(* The characters of data stand for octets, or for blocks of c.block equal *)
(* octets when that is more than one: nothing here depends on it.          *)
(***************************************************************************)
EXTENDS HttpText

\* a stream's own name, unless it is no name of a file: <stdin>, <fdopen>
OwnName(n) == IF n # None /\ n # "" /\ Ch(n, 1) = "<" /\ Ch(n, Len(n)) = ">" THEN None ELSE n
FileName(c) ==
    IF c.filename # None THEN c.filename
    ELSE IF c.how = "path" THEN c.sname
    ELSE IF c.kind \in {"none", "temporary"} THEN None
    ELSE OwnName(c.sname)

Types == [txt |-> "text/plain", html |-> "text/html", png |-> "image/png", json |-> "application/json"]
\* the last component of a path, and what is behind its last dot unless it begins with it
Guess(n) ==
    LET slashes == {i \in 1..Len(n) : Ch(n, i) = "/"}
        base == IF slashes = {} THEN n ELSE From(n, MaxOf(slashes) + 1)
        dots == {i \in 2..Len(base) : Ch(base, i) = "." /\ \E j \in 1..(i - 1) : Ch(base, j) # "."}
        ext == IF dots = {} THEN "" ELSE Lower(From(base, MaxOf(dots) + 1))
    IN IF ext \in DOMAIN Types THEN Types[ext] ELSE None
Octets == "application/octet-stream"
Or(a, b) == IF a # None THEN a ELSE b
\* what a test request says about a file
Told(c) ==
    LET known == IF c.how = "path" THEN Or(c.filename, c.sname) ELSE c.filename
    IN Or(c.ct, IF known = None \/ known = "" THEN Octets ELSE Or(Guess(known), Octets))
ContentType(c) == IF c.how \in {"add", "path"} THEN Told(c) ELSE Or(c.ct, c.hct)
Length(c) == IF c.how \in {"add", "path"} THEN None ELSE Or(c.cl, c.hcl)

InitState(c) ==
    [filename |-> FileName(c), ct |-> ContentType(c), cl |-> Length(c), data |-> IF c.kind = "none" THEN "" ELSE c.data,
     pos |-> 0, closed |-> FALSE, dst |-> [p1 |-> None, p2 |-> None, f |-> ""]]
InitRet(c) == Done

Rest(s) == From(s.data, s.pos + 1)
RECURSIVE LinesIn(_)
LinesIn(t) == LET i == Find(t, "\n") IN
    IF t = "" THEN <<>> ELSE IF i = 0 THEN <<t>> ELSE <<UpTo(t, i)>> \o LinesIn(From(t, i + 1))
Line(s) == LET q == LinesIn(Rest(s)) IN IF q = <<>> THEN "" ELSE q[1]
Past(s, n) == [s EXCEPT !.pos = IF @ > Len(s.data) THEN @ ELSE @ + n]
Closed == Exc("ValueError")
Size(s) == IF s.cl # None /\ IsPyInt(s.cl) THEN PyInt(s.cl) ELSE 0
Named(s) == s.filename # None /\ s.filename # ""
Form(s, field) ==
    "--b\r\nContent-Disposition: form-data; name=\"" \o field \o "\""
    \o (IF s.filename = None THEN "" ELSE "; filename=\"" \o s.filename \o "\"")
    \o "\r\nContent-Type: " \o Or(s.ct, IF Named(s) THEN Or(Guess(s.filename), Octets) ELSE Octets)
    \o "\r\n\r\n" \o Rest(s) \o "\r\n--b--\r\n"

Uses == {"read", "readline", "list", "next", "seek", "tell", "save", "multipart"}
Step(s, e) ==
    IF s.closed /\ e.op \in Uses THEN R(s, Closed)
    ELSE CASE e.op = "read" ->
                LET t == IF e.n < 0 THEN Rest(s) ELSE UpTo(Rest(s), IF e.n > Len(Rest(s)) THEN Len(Rest(s)) ELSE e.n)
                IN R(Past(s, Len(t)), Val(t))
           [] e.op = "readline" -> R(Past(s, Len(Line(s))), Val(Line(s)))
           [] e.op = "next" -> IF Line(s) = "" THEN R(s, Exc("StopIteration")) ELSE R(Past(s, Len(Line(s))), Val(Line(s)))
           [] e.op = "list" -> R(Past(s, Len(Rest(s))), Val(LinesIn(Rest(s))))
           [] e.op = "seek" -> R([s EXCEPT !.pos = e.n], Done)
           [] e.op = "tell" -> R(s, Val(s.pos))
           \* whatever is left goes to the place, and what was there is
           \* replaced (a path) or stays in front (a file, left open)
           [] e.op = "save" ->
                R([Past(s, Len(Rest(s))) EXCEPT !.dst[e.to] = IF e.to = "f" THEN @ \o Rest(s) ELSE Rest(s)], Done)
           [] e.op = "multipart" -> R(Past(s, Len(Rest(s))), Val(Form(s, e.field)))
           [] e.op = "close" -> R([s EXCEPT !.closed = TRUE], Done)
           [] e.op = "bool" -> R(s, Val(Named(s)))
           [] e.op = "about" ->
                R(s, Val([filename |-> s.filename, ct |-> s.ct, length |-> Size(s),
                          mimetype |-> IF s.ct = None THEN "" ELSE Lower(ParseOptions(s.ct).name),
                          params |-> DictSet(IF s.ct = None THEN <<>> ELSE ParseOptions(s.ct).opts)]))
           [] e.op = "attr" -> R(s, Exc("AttributeError"))
Obs(s) == [dst |-> s.dst, closed |-> s.closed]

----------------------------------------------------------------------------
StateInv(s) == s.pos >= 0
StepInv(s, e, r) ==
    \* the name and the headers never change, nothing is written without save
    /\ r.st.filename = s.filename /\ r.st.ct = s.ct /\ r.st.cl = s.cl /\ r.st.data = s.data
    /\ e.op # "save" => r.st.dst = s.dst
    \* a saved copy of a file from its beginning is the file
    /\ (e.op = "save" /\ ~s.closed /\ s.pos = 0 /\ e.to # "f") => r.st.dst[e.to] = s.data
    \* the lines put together are what reading gives
    /\ (e.op = "list" /\ ~s.closed) => Join(r.ret.v, "") = Rest(s)
=============================================================================
