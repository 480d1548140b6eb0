------------------------------ MODULE FilesMC ------------------------------
EXTENDS Files
CONSTANT McDepth
Names == {None, "", "a.txt", "<stdin>", "b.HTML", ".txt", "<x", "d.png/x"}
Plain == [how |-> "direct", kind |-> "memory", data |-> "a\nb", sname |-> None, filename |-> None, ct |-> None, cl |-> None,
          hct |-> None, hcl |-> None, block |-> 1]
McInits ==
    IF McDepth > 1 THEN {[Plain EXCEPT !.kind = k, !.data = d, !.sname = "a.txt"] : k \in {"none", "memory", "disk", "temporary"}, d \in {"a\nb", "\n\na\n", ""}}
    ELSE {[Plain EXCEPT !.how = h, !.kind = k, !.sname = n, !.filename = f] : h \in {"direct", "add", "given"},
              k \in {"none", "memory", "temporary"}, n \in Names, f \in Names}
         \union {[Plain EXCEPT !.how = h, !.kind = "disk", !.sname = "a.txt", !.filename = f, !.ct = t] : h \in {"direct", "add", "given", "path"}, f \in Names,
                     t \in {None, "text/X; q=1"}}
         \union {[Plain EXCEPT !.how = "direct", !.ct = t, !.hct = u, !.cl = l, !.hcl = m] :
                     t \in {None, "Text/Plain", "a/b;q=\"x; y\"; z", ""}, u \in {None, "c/d; e=F"}, l \in {None, "3", "0"},
                     m \in {None, "", "12", " 7 ", "x", "-3", "1.5"}}
McEvents(s) ==
    [op : {"read"}, n : {-1, 0, 1, 2, 5}] \union [op : {"readline", "next", "list", "tell", "close", "bool", "about", "attr"}]
    \union [op : {"seek"}, n : {0, 1, 3, 9}] \union [op : {"save"}, to : IF s.closed THEN {"f"} ELSE {"p1", "p2", "f"}, buf : {1, 2, 16384}]
    \union [op : {"multipart"}, field : {"x"}]
McConstraint(s) == TRUE
McKey(c) == 0
=============================================================================
