------------------------------ MODULE MCRegex ------------------------------
(***************************************************************************)
(* Regex's derivatives against the textbook definition of matching, for    *)
(* the expressions of EXPRS (T, root, alphabet, n) and all words up to n;  *)
(* and the finiteness of what they compute.                                *)
(***************************************************************************)
EXTENDS Matching, TLC, Json, IOUtils

Exprs == ndJsonDeserialize(IOEnv.EXPRS)

VARIABLES k, w, s
vars == <<k, w, s>>
E == Exprs[k]
Rule == <<[n |-> "x", pre |-> {}, k |-> <<Frame(E.root)>>]>>

Init == \E i \in DOMAIN Exprs : k = i /\ w = <<>> /\ s = Start
Next == /\ Len(w) < E.n
        /\ \E i \in DOMAIN E.alphabet :
              /\ w' = Append(w, E.alphabet[i])
              /\ s' = DRules(E.T, Rule, s, E.alphabet[i], {})
        /\ UNCHANGED k
Spec == Init /\ [][Next]_vars

\* A derivative set accepts exactly if the word is a match
SameLanguage == (AcceptingRules(E.T, Rule, s) # {}) = (Len(w) + 1 \in Ends(E.T, E.root, w, 1, {}))
\* Nothing can follow exactly if there is nothing left to match
NullableAgrees == w = <<>> => (Nullable(E.T, E.root) = (1 \in Ends(E.T, E.root, <<>>, 1, {})))
=============================================================================
