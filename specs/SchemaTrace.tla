---------------------------- MODULE SchemaTrace -----------------------------
(* What the real schema parser makes of texts.  CASES: text (bytes), end,   *)
(* ok, odd (an exception of another kind), line, col (of the error message, *)
(* -1 if it gives none), delims, vars (n: bytes of the name, l: line),      *)
(* missing (there was no such file)                                         *)
EXTENDS SchemaText, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES k, i, st
vars == <<k, i, st>>
C == Cases[k]

\* in a schema, that is, before it stopped
Parsed == [delims |-> st.delims,
           vars |-> [j \in DOMAIN st.vars |-> [n |-> st.vars[j].n, l |-> st.vars[j].l]]]
SyntaxError == ~C.ok /\ C.line = Line(C.text, st.at) /\ C.col = Column(C.text, st.at)
OtherError == ~C.ok /\ C.line = -1
Matches ==
    /\ C.end = "end" /\ ~C.odd
    /\ CASE C.missing -> OtherError     \* there was no text to read
         [] st.ok = "done" -> C.ok /\ C.delims = Parsed.delims /\ C.vars = Parsed.vars
         [] st.ok = "syntax" -> SyntaxError
         [] st.ok = "meaning" -> OtherError
         [] st.ok = "either" -> SyntaxError \/ OtherError

TInit == i = 1 /\ st = Fresh /\ \E c \in DOMAIN Cases : k = c
\* a piece of the text at a time
Piece == 16
RECURSIVE Steps(_, _, _)
Steps(s, a, b) == IF a > b THEN s ELSE Steps(Step(s, C.text, a), a + 1, b)
Next == /\ st.ok = "go"
        /\ st' = Steps(st, i, i + Piece - 1)
        /\ i' = i + Piece
        /\ UNCHANGED k
Accept == /\ st.ok # "go" /\ i > 0 /\ Matches
          /\ PrintT(<<"ACCEPT", k>>)
          /\ i' = -1 /\ UNCHANGED <<k, st>>
TSpec == TInit /\ [][Next \/ Accept]_vars
Explains == (st.ok # "go" /\ i > 0) => Matches
=============================================================================
