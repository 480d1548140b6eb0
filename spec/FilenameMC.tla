----------------------------- MODULE FilenameMC -----------------------------
EXTENDS Filename, TLC
CONSTANTS McLen
McDepth == 1
RECURSIVE Texts(_, _)
Texts(A, n) == IF n = 0 THEN {""} ELSE LET T == Texts(A, n - 1) IN T \union {a \o t : a \in A, t \in T}
Pieces == {"a", "Z9", ".", "_", "-", "/", "\\", " ", "\n", "~", CharTab.nul, CharTab.fs, CharTab.e_acute, CharTab.fullslash, CharTab.fulldot, CharTab.cjk}
McInits == TLCEval({a \o b : a \in Pieces, b \in Pieces} \union {""})
Tails == TLCEval(Texts(Pieces, McLen))
McEvents(s) == [op : {"secure"}, text : {s \o t : t \in Tails}]
McConstraint(s) == TRUE
McKey(c) == 0
=============================================================================
