----------------------------- MODULE BuildTrace ------------------------------
(***************************************************************************)
(* Parsers built from schemas.  CASES: kind "text" (text) or "nodes" (sch);*)
(* end, ok, odd, msg: how building one ended; dfa: if one was built, its   *)
(* automaton, which is explored for tokens with a delimiter inside.        *)
(***************************************************************************)
EXTENDS Delimiting, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Texts == INSTANCE SchemaText

Sch == [c \in DOMAIN Cases |-> IF Cases[c].kind = "text" THEN Texts!Parse(Cases[c].text) ELSE Cases[c].sch]
Cut == [c \in DOMAIN Cases |-> Inner(Sch[c])]

VARIABLES k, q,
          where   \* "new", "start": no byte yet, "in": only the first byte may be a delimiter, "past": another one was
vars == <<k, q, where>>
C == Cases[k]
S == Sch[k]

Judged ==
    /\ C.end = "end" /\ ~C.odd
    /\ IF C.ok THEN ~Must(S) ELSE May(S) /\ Says(S, C.msg)

\* one byte of every range that matters
Reps(x) == {C.dfa[x].tr[i][1] : i \in DOMAIN C.dfa[x].tr} \cup (UNION {{d, d + 1} : d \in Cut[k]} \cap 0..255)
Target(x, c) == LET tr == C.dfa[x].tr IN tr[CHOOSE i \in DOMAIN tr : tr[i][1] <= c /\ c <= tr[i][2]][3]

Whole == where = "past" =>
            \A i \in DOMAIN C.dfa[q].ty : C.dfa[q].ty[i] \in {"firstTimestamp", "newLineTimestamp"}
Ok == CASE where = "new" -> Judged
        [] where \in {"start", "in"} -> TRUE
        [] where = "past" -> Whole

Init == q = 1 /\ where = "new" /\ \E c \in DOMAIN Cases : k = c
Explore == /\ where = "new" /\ Ok /\ C.ok /\ C.dfa # <<>>
           /\ where' = "start" /\ UNCHANGED <<k, q>>
Read == /\ where \in {"start", "in", "past"} /\ Ok
        /\ \E c \in Reps(q) :
              /\ q' = Target(q, c) /\ q' # 0
              /\ where' = IF where = "start" THEN "in" ELSE IF c \in Cut[k] THEN "past" ELSE where
        /\ UNCHANGED k
Reject == /\ where # "bad" /\ ~Ok
          /\ PrintT(<<"REJECT", k>>)
          /\ where' = "bad" /\ UNCHANGED <<k, q>>
Next == Explore \/ Read \/ Reject
Spec == Init /\ [][Next]_vars
Explains == where # "bad" => Ok
=============================================================================
