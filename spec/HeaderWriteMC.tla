--------------------------- MODULE HeaderWriteMC ---------------------------
EXTENDS HeaderWrite
McDepth == 1
Texts == {"plain", "a\nb", "\r", "x\r\nSet-Cookie: a=b", "end\n", "\r\n y", "q\rz"}
McInits == {[dummy |-> 0]}
McEvents(s) == [op : EntryPoints, v : Texts]
McConstraint(s) == TRUE
McKey(c) == 0
=============================================================================
