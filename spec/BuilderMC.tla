----------------------------- MODULE BuilderMC -----------------------------
EXTENDS Builder
CONSTANT McDepth
Blank0 == [path |-> "/p", base |-> None, query |-> [t |-> "none", s |-> "", pairs |-> <<>>], method |-> "GET", hdrs |-> <<>>, ctype |-> None, clen |-> None,
          body |-> None, data |-> [t |-> "none", s |-> "", fields |-> <<>>], cs |-> "utf-8"]
Field(n, v) == [n |-> n, k |-> "text", v |-> v, fn |-> None, ct |-> None]
Upload(n, v, fn, ct) == [n |-> n, k |-> "file", v |-> v, fn |-> fn, ct |-> ct]
McInits == {Blank0}
McEvents(s) ==
    [op : {"query"}, v : {None, "q=1"}] \union [op : {"arg"}, n : {"a"}, v : {"1 2"}] \union [op : {"getargs", "getform", "getfiles", "close"}]
    \union [op : {"args"}, pairs : {<<<<"b", "2">>, <<"a", "&">>>>}]
    \union [op : {"field"}, f : {Field("f", "x y")}] \union [op : {"form"}, fields : {<<>>, <<Field("g", "=")>>}]
    \union (IF s.closed THEN {} ELSE [op : {"file"}, f : {Upload("f", "data", "a.txt", None)}] \union [op : {"files"}, fields : {<<>>, <<Upload("h", "d", None, "a/b")>>}])
    \union [op : {"stream"}, v : {None}, pos : {0}] \union [op : {"stream"}, v : {"abc"}, pos : {0, 2}]
    \union [op : {"ctype"}, v : {None, "text/plain", "multipart/form-data; boundary=xyz", "application/x-www-form-urlencoded"}]
    \union [op : {"clen"}, v : {None, "7"}] \union [op : {"base"}, v : {None, "https://h.com:8080/r", "http://[::1]/", "http://h.com/?x"}]
    \union [op : {"header"}, n : {"content-type", "Host"}, v : {"a/b"}]
    \union [op : {"host"}, v : {"k.org"}] \union [op : {"root"}, v : {"/s"}] \union [op : {"scheme"}, v : {"https"}]
    \union [op : {"build"}, read : BOOLEAN] \union [op : {"request"}, own : {TRUE}]
McConstraint(s) == TRUE
McKey(c) == 0
=============================================================================
