------------------------------ MODULE Filename ------------------------------
(* A file name a client sent, made harmless.                                 *)
EXTENDS Integers, Sequences, FiniteSets, Str

\* what is left of a character in ASCII when it is taken apart
Plain(c) ==
    CASE c = CharTab.e_acute -> "e" [] c = CharTab.E_acute -> "E" [] c = CharTab.ydiaer -> "y" [] c = CharTab.ffi -> "ffi"
      [] c = CharTab.nbsp -> " " [] c = CharTab.fullslash -> "/" [] c = CharTab.fulldot -> "." [] c = CharTab.twodots -> ".."
      [] c \in {CharTab.euro, CharTab.emoji, CharTab.linesep, CharTab.sharp_s, CharTab.cjk, CharTab.arabic1, CharTab.repl} -> ""
      [] OTHER -> c
Allowed == AlnumSet \union CharSet("._-")
Blanks == White \union {CharTab.fs, CharTab.us, "/"}
RECURSIVE Words(_, _, _)
Words(s, i, cur) ==
    IF i > Len(s) THEN (IF cur = "" THEN <<>> ELSE <<cur>>)
    ELSE IF Ch(s, i) \in Blanks THEN (IF cur = "" THEN <<>> ELSE <<cur>>) \o Words(s, i + 1, "")
    ELSE Words(s, i + 1, cur \o Ch(s, i))
Ends == {".", "_"}
Secure(s) ==
    Strip(MapText(Join(Words(MapText(s, LAMBDA c : Plain(c)), 1, ""), "_"), LAMBDA c : IF c \in Allowed THEN c ELSE ""), Ends)

InitState(c) == c
InitRet(c) == Done
Step(st, e) == R(st, Val(Secure(e.text)))
Obs(st) == 0

\* C23
Harmless(s) == AllIn(s, Allowed) /\ (s # "" => Ch(s, 1) \notin Ends /\ Ch(s, Len(s)) \notin Ends)
StateInv(st) == TRUE
StepInv(st, e, r) ==
    LET v == r.ret.v IN
    /\ Harmless(v)
    /\ Secure(v) = v
    /\ Harmless(e.text) => v = e.text
    \* letters and digits survive in their order
    /\ LET Core(s) == MapText(s, LAMBDA c : IF c \in AlnumSet THEN c ELSE "") IN Core(v) = Core(MapText(e.text, LAMBDA c : Plain(c)))
=============================================================================
