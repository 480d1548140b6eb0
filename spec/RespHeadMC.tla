----------------------------- MODULE RespHeadMC -----------------------------
EXTENDS RespHead
CONSTANT McDepth
St(s, n, t) == [s |-> s, n |-> n, t |-> t]
Class(cs, dm, auto) == [cs |-> cs, dm |-> dm, ds |-> St("int", 200, ""), auto |-> auto]
McInits == {Class("utf-8", "text/plain", TRUE), Class("latin-1", None, FALSE)}
X == [d |-> 11016, s |-> 77]
Types == {"text/html", "text", "application/xml", "application/a+xml", "image/a+xml", "a/b; c=d", ""}
Names == {"Content-Type", "CONTENT-TYPE", "Content-Length", "Expires", "Retry-After", "Upgrade", "X-A"}
Make1(cls, s, h, m, t) == [op |-> "make", cls |-> cls, status |-> s, headers |-> h, how |-> "list", mimetype |-> m, ctype |-> t, body |-> "ab", as |-> "str"]
McEvents(st) ==
    [op : {"code"}, n : {100, 200, 204, 299, 304, 404, 418}]
    \union [op : {"status"}, t : {"204", "404 X Y", "x", " 304 a", "200OK", "+5 a"}]
    \union [op : {"raw", "add"}, name : Names, v : {"", "5", "Thu, 01 Jan 2015 00:00:01 GMT", "a;b", "x\ny"}]
    \union [op : {"raw"}, name : {"retry-after"}, v : {"000", "99999999999999999999", CharTab.sup2, "x"}]
    \union [op : {"data"}, v : {CharTab.e_acute}, as : {"prop"}]
    \union [op : {"write"}, v : {CharTab.e_acute}, as : {"str"}, via : {"fn"}]
    \union [op : {"entity"}, allowed : {<<>>, <<"expires", "content-location">>, <<"Content-TYPE">>}, on : {"headers", "list"}]
    \union [op : {"hops"}, on : {"headers"}]
    \union [op : {"kinds"}, name : Names]
    \union [op : {"force"}, cls : {"Full", "Base"}, env : {FALSE}]
    \union [op : {"anew"}, cls : {"Full"}, how : {"plain", "writer", "late"}, buffered : {TRUE, FALSE}]
    \union [op : {"forceapp"}, cls : {"Full"}, how : {"late"}, env : {TRUE, FALSE}]
    \union {[op |-> "repr"]}
    \union [op : {"send"}, method : {"GET", "HEAD"}]
    \union {Make1(c, s, h, m, t) : c \in {"Full", "Base"}, s \in {St("none", 0, ""), St("int", 404, ""), St("text", 0, "201 Made")},
                h \in {<<>>, << <<"content-type", "q/r">>, <<"X", "1">>, <<"Content-Length", "9">> >>}, m \in {None, "text/a"}, t \in {None, "text/b"}}
    \union (IF st.cls = "Base" THEN {}
            ELSE [op : {"mimetype"}, v : Types]
                 \union [op : {"text"}, p : {"location"}, v : {"http://h/", "x\r\ny"}]
                 \union [op : {"text"}, p : {"content_type", "content_encoding", "accept_ranges"}, v : {"x", "", "x\r\ny"}]
                 \union [op : {"length"}, n : {0, 7, -1}]
                 \union [op : {"date"}, p : {"age", "date", "expires", "last_modified"}, x : {X}, form : {"naive"}]
                 \union [op : {"retry_in"}, n : {0, 9}]
                 \union [op : {"retry_at"}, x : {X}, form : {"naive"}]
                 \union [op : {"retry_text"}, v : {"12", "soon"}]
                 \union {[op |-> "retry_none"]}
                 \union [op : {"del"}, p : {"location", "content_type", "expires", "content_length"}])
McConstraint(st) == TRUE
McKey(c) == 0
=============================================================================
