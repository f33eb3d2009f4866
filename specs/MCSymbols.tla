----------------------------- MODULE MCSymbols ------------------------------
(***************************************************************************)
(* The table as the code builds it (a name that is not there yet gets the  *)
(* number of names so far) against Symbols, for all short schemas.         *)
(***************************************************************************)
EXTENDS Symbols

CONSTANTS Alphabet, Most, Stale  \* Stale: a mistake, for a test of the test
VARIABLES vars, table, known, asked
all == <<vars, table, known, asked>>

Init == vars = <<>> /\ table = Fixed /\ known = Fixed /\ asked = FALSE
Declare(n) ==
    /\ Len(vars) < Most /\ ~asked
    /\ vars' = Append(vars, n)
    /\ table' = IF n = "timestamp" \/ (\E x \in table : x[1] = n) THEN table
                ELSE table \cup {<<n, Cardinality(table) - (IF Stale THEN Len(vars) ELSE 0)>>}
    /\ UNCHANGED <<known, asked>>
Ask(n) ==
    LET ids == {x[2] : x \in {y \in table : y[1] = n}}
        back == {x[1] : x \in {y \in table : y[2] \in ids}}
    IN /\ AskOk(vars, known, n, ids, back)
       /\ asked' = TRUE
       /\ known' = known \cup {<<n, id>> : id \in ids}
       /\ UNCHANGED <<vars, table>>
Next == \E n \in Alphabet : Declare(n) \/ Ask(n)
Spec == Init /\ [][Next]_all
\* every question has an answer, and ids are 0, 1, 2...
Answers == \A n \in Alphabet : ENABLED Ask(n)
Dense == {x[2] : x \in table} = 0..(Cardinality(table) - 1) /\ known \subseteq table
=============================================================================
