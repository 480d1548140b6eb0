------------------------------ MODULE ViewsMC ------------------------------
EXTENDS Views, TLC
CONSTANTS McDepth
C(k, n, t) == [kind |-> k, name |-> n, text |-> t]
McInits == {C("set", "vary", None), C("set", "allow", "a, \"b c\", A"), C("cc", "cache_control", None), C("cc", "cache_control", "no-cache=\"x y\", max-age=5"),
            C("params", "mimetype_params", "a/b"), C("params", "mimetype_params", "a/b ; x=1"),
            C("crange", "content_range", None), C("crange", "content_range", "bytes 1-4/9"), C("crange", "content_range", "bad"),
            C("auth", "www_authenticate", None), C("auth", "www_authenticate", "Digest realm=\"a\", qop=auth")}
Common == [op : {"refetch"}]
SetEvs == [op : {"add", "remove", "discard", "find", "has"}, v : {"a", "A", "B C", ""}]
    \union [op : {"clear"}] \union [op : {"delidx", "getidx"}, idx : {0, -1, 2}] \union [op : {"setidx"}, idx : {0, -1, 2}, v : {"b c", "x"}]
    \union [op : {"update", "assign"}, q : {<<>>, <<"x", "X", "a">>}]
MinKey(K) == CHOOSE k \in K : TRUE
DEvs(K, V) == [op : {"put", "setdefault"}, k : K, v : V] \union [op : {"del", "pop", "popd"}, k : K]
    \union [op : {"dupdate", "ior"}, items : {<<>>, << <<MinKey(K), "2">>, <<"z", None>> >>}]
CcEvs == DEvs({"max-age", "private"}, {None, "7", "q\"t"}) \union [op : {"popitem", "dclear"}]
    \union [op : {"prop"}, p : {"no_cache", "max_age", "private", "public"}, v : {"no", "yes"}] \union [op : {"prop"}, p : {"max_age", "s_maxage"}, v : {"60"}]
ParamEvs == DEvs({"x", "charset"}, {None, "7", "q;t"}) \union [op : {"popitem", "dclear"}] \union [op : {"mimetype"}, v : {"text/css"}]
CrEvs == [op : {"crset"}, start : {-1, 0, 2}, stop : {-1, 2, 3}, length : {-1, 2, 9}, units : {"bytes"}]
    \union [op : {"unset"}] \union [op : {"crattr"}, attr : {"start", "stop", "length"}, n : {-1, 0, 3}] \union [op : {"crunits"}, units : {None, "x"}]
    \union [op : {"crassign"}, units : {None, "bytes"}, start : {1}, stop : {3}, length : {-1}]
AuthEvs == DEvs({"realm", "x"}, {None, "7", "q\"t"}) \union [op : {"type"}, v : {None, "basic"}] \union [op : {"attr"}, k : {"nonce"}, v : {None, "n"}]
    \union [op : {"stale"}, v : {None, "TRUE", "FALSE"}] \union [op : {"basic"}, v : {"r"}] \union [op : {"aclear"}]
    \union [op : {"digest"}, v : {"r"}, nonce : {"n"}, q : {<<"auth", "auth-int">>}, stale : BOOLEAN, opaque : {None}, algorithm : {"MD5"}]
    \union [op : {"subadd", "subdiscard"}, k : {"qop", "domain"}, v : {"auth", "/a,b"}]
McEvents(s) == Common \union (CASE s.kind = "set" -> SetEvs [] s.kind = "cc" -> CcEvs [] s.kind = "params" -> ParamEvs
                               [] s.kind = "crange" -> CrEvs [] s.kind = "auth" -> AuthEvs)
McConstraint(s) == CASE s.kind = "set" -> Len(s.view) <= 4 [] s.kind \in {"cc", "params"} -> Len(s.view) <= 3
                     [] s.kind = "auth" -> Len(s.view.d) <= 3 [] OTHER -> TRUE
McKey(c) == c.name
=============================================================================
