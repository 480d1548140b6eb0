----------------------------- MODULE StreamsMC -----------------------------
EXTENDS Streams
CONSTANTS McDepth, McLen, McText
RECURSIVE Texts(_, _)
Texts(A, n) == IF n = 0 THEN {""} ELSE LET T == Texts(A, n - 1) IN T \union {a \o t : a \in A, t \in T}
McInits == [data : {t \in Texts({"a", "\n"}, McLen) : TRUE}, limit : 0..(McLen + 1), quiet : BOOLEAN, bytes : {TRUE}]
\* the cuts of a text into pieces
RECURSIVE CutsOf(_)
CutsOf(n) == IF n = 0 THEN {<<>>} ELSE UNION {{<<k>> \o q : q \in CutsOf(n - k)} : k \in 1..n}
CutTab == TLCEval([n \in 0..McText |-> CutsOf(n)])
LineTexts == TLCEval(Texts({"a", "\r", "\n"}, McText))
ChunkTexts == TLCEval(Texts({"a", "|", "-"}, McText))
Reads == [op : {"read", "readline"}, n : {-2, -1, 0, 1, 2}] \union [op : {"readlines"}, n : {-1, 1, 2, 3}]
    \union [op : {"next", "break"}] \union [op : {"exhaust"}, n : {1, 2, 10}]
Iters == UNION {[op : {"lines"}, src : {"iter", "stream"}, text : {t}, cuts : CutTab[Len(t)], size : {100}, limit : {0}, bytes : BOOLEAN] : t \in LineTexts}
    \union [op : {"lines"}, src : {"limit"}, text : LineTexts, cuts : {<<>>}, size : {1, 2, 3}, limit : {2, 3, 4}, bytes : {TRUE}]
    \union UNION {[op : {"chunks"}, src : {"iter", "stream"}, text : {t}, cuts : CutTab[Len(t)], size : {100}, limit : {0}, bytes : {TRUE}, sep : {"|", "--", "a|", "-|-"}] : t \in ChunkTexts}
    \union [op : {"chunks"}, src : {"limit"}, text : ChunkTexts, cuts : {<<>>}, size : {1, 2}, limit : {2, 3, 4}, bytes : {TRUE, FALSE}, sep : {"|", "--"}]
IsStart(s) == s.data = "" /\ s.limit = 0 /\ ~s.quiet /\ ~s.broken
McEvents(s) == (IF s.data = "" /\ s.limit = 0 THEN {} ELSE Reads) \union (IF IsStart(s) THEN Iters ELSE {})
McConstraint(s) == TRUE
McKey(c) == 0
=============================================================================
