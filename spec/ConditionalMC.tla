--------------------------- MODULE ConditionalMC ---------------------------
EXTENDS Conditional
CONSTANT McDepth
McInits == [status : {200, 404}, body : {"abc"}]
Ims == {[k |-> "none", s |-> 0], [k |-> "bad", s |-> 0], [k |-> "ok", s |-> 1000], [k |-> "ok", s |-> 2000]}
Inm == {None, "*", "\"a\"", "w/\"a\", \"b\"", "b , W/\"#abc#\"", "\"\"", "\"x,y\",\"a\"", ",\"q\"", "\"*\""}
Evs == [op : {"set_etag"}, v : {"a", "", "x,y", "q\"r", "*"}, weak : BOOLEAN]
    \union [op : {"add_etag"}, overwrite : BOOLEAN, weak : BOOLEAN]
    \union [op : {"set_data"}, v : {"abc", ""}]
    \union [op : {"last_modified"}, s : {1500, 1000}]
    \union [op : {"freeze"}, tag : BOOLEAN]
    \union [op : {"get_etag"}]
    \union [op : {"conditional"}, method : {"GET", "HEAD", "POST"}, inm : Inm, ims : Ims]
McEvents(s) == Evs
McConstraint(s) == TRUE
McKey(c) == 0
=============================================================================
