--------------------------- MODULE HeaderFormsMC ---------------------------
(* Every text up to a length over the characters that matter.               *)
EXTENDS HeaderForms, TLC
CONSTANTS McLen, McRangeLen
McDepth == 1
RECURSIVE Texts(_, _)
Texts(A, n) == IF n = 0 THEN {""} ELSE LET T == Texts(A, n - 1) IN T \union {a \o t : a \in A, t \in T}
TextA == TLCEval(Texts({"a", ",", "\"", "\\", "=", " "}, McLen))
TextO == TLCEval(Texts({"a", ";", "\"", "\\", "=", " "}, McLen))
TextR == TLCEval({"bytes=" \o t : t \in Texts({"1", "2", "-", ",", " ", "0"}, McRangeLen)})
TextC == TLCEval({"b " \o t : t \in Texts({"1", "2", "-", "/", "*", " "}, McRangeLen)})
Vals == TLCEval(Texts({"a", "\"", "\\", " ", ",", ";"}, 2))
Evs == [op : {"plist", "pdict"}, text : TextA]
    \union [op : {"poptions"}, text : TextO]
    \union [op : {"prange"}, text : TextR, lengths : {<<0, 1, 2, 3, 12, -1>>}]
    \union [op : {"pcrange"}, text : TextC]
    \union [op : {"quote", "unquote"}, v : Texts({"a", "\"", "\\", " "}, McLen)]
    \union [op : {"list"}, q : {<<v>> : v \in Vals} \union {<<v, w>> : v \in Vals, w \in {"a", "", "\"", "\\"}}]
    \union [op : {"dict", "options"}, name : {"a"}, d : {<< <<"x", v>> >> : v \in Vals} \union {<< <<"y", None>>, <<"x", v>> >> : v \in Vals}]
    \union [op : {"newcrange"}, start : {-1, 0, 1, 5}, stop : {-1, 0, 1, 2, 6}, length : {-1, 0, 1, 2, 6}]
McInits == {0}
McEvents(s) == Evs
McConstraint(s) == TRUE
McKey(c) == 0
=============================================================================
