----------------------------- MODULE Intersect ------------------------------
(***************************************************************************)
(* Which rules can match a string that a pattern matches too: the pairs of *)
(* derivative sets that one string leads to are explored level by level    *)
(* until no new pair turns up.                                             *)
(* CASES: kind "rules" (T, roots, ids) or "schema" (sch), pattern (PT,     *)
(* proots), r: the names reported by the code.                             *)
(***************************************************************************)
EXTENDS Rules, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

RuleSet(T, roots, ids) ==
    [T |-> T, delims |-> {}, rules |-> [i \in DOMAIN roots |-> [n |-> ids[i], pre |-> {}, k |-> Cont(roots[i])]]]
Sem == [c \in DOMAIN Cases |-> IF Cases[c].kind = "schema" THEN Compile(Cases[c].sch)
                               ELSE RuleSet(Cases[c].T, Cases[c].roots, Cases[c].ids)]
Pat == [c \in DOMAIN Cases |-> RuleSet(Cases[c].PT, Cases[c].proots, [i \in DOMAIN Cases[c].proots |-> "pattern"])]
Reps == [c \in DOMAIN Cases |->
           ({0} \cup Boundaries(Sem[c].T) \cup Boundaries(Pat[c].T)
              \cup UNION {{d, d + 1} : d \in Sem[c].delims}
              \cup UNION {UNION {{d, d + 1} : d \in Sem[c].rules[i].pre} : i \in DOMAIN Sem[c].rules}) \cap 0..255]

VARIABLES k, seen, front, found, done
vars == <<k, seen, front, found, done>>

Reported == {Cases[k].r[i] : i \in DOMAIN Cases[k].r}
Next1(x, c) == <<Delta(Sem[k], x[1], c), Delta(Pat[k], x[2], c)>>
\* the names of the rules of the first set that match where the pattern does
Coincide(x) == IF Accepted(Pat[k], x[2]) = {} THEN {}
               ELSE {Sem[k].rules[i].n : i \in Accepted(Sem[k], x[1])}

Init == /\ \E c \in DOMAIN Cases : k = c
        /\ seen = {<<Start, Start>>} /\ front = seen /\ found = {} /\ done = FALSE
Level ==
    /\ front # {}
    /\ found' = found \cup UNION {Coincide(x) : x \in front}
    /\ LET new == {y \in {Next1(x, c) : x \in front, c \in Reps[k]} : y[1] # {} /\ y[2] # {}}
       IN front' = new \ seen /\ seen' = seen \cup new
    /\ UNCHANGED <<k, done>>
Accept ==
    /\ front = {} /\ ~done /\ found = Reported
    /\ PrintT(<<"ACCEPT", k>>)
    /\ done' = TRUE /\ UNCHANGED <<k, seen, front, found>>
TSpec == Init /\ [][Level \/ Accept]_vars

Explains == front = {} => found = Reported
=============================================================================
