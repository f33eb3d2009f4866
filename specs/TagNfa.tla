------------------------------- MODULE TagNfa -------------------------------
(***************************************************************************)
(* The tagged NFA that the library built against TagRegex: the words over  *)
(* bytes and marks along its accepting paths must be those of the          *)
(* expressions, for paths of all lengths.  The product of NFA state sets   *)
(* and of what the expressions may still become is explored completely.    *)
(* CASES: T, roots, ids, ncaps; nfa: <<[acc, eps, by |-> <<lo,hi,dests>>s, *)
(* tag |-> <<kind, capture numbers, dest>>s]>>, root 1.                    *)
(***************************************************************************)
EXTENDS TagRegex, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

Letter(t) == LET S == {t[2][i] : i \in DOMAIN t[2]}
             IN CASE t[1] = "o" -> Open(t[2][1]) [] t[1] = "c" -> Close(t[2][1]) [] t[1] = "n" -> Neg(S)
Edges == [c \in DOMAIN Cases |-> [x \in DOMAIN Cases[c].nfa |->
            {<<Letter(Cases[c].nfa[x].tag[i]), Cases[c].nfa[x].tag[i][3]>> : i \in DOMAIN Cases[c].nfa[x].tag}]]
Letters == [c \in DOMAIN Cases |->
    (({0} \cup Boundaries(Cases[c].T)
        \cup UNION {{Cases[c].nfa[x].by[i][1] : i \in DOMAIN Cases[c].nfa[x].by} : x \in DOMAIN Cases[c].nfa}) \cap 0..255)
    \cup {Open(i) : i \in 1..Cases[c].ncaps} \cup {Close(i) : i \in 1..Cases[c].ncaps}
    \cup {Neg(S) : S \in NegSets(Cases[c].T)}
    \cup UNION {{e[1] : e \in Edges[c][x]} : x \in DOMAIN Cases[c].nfa}]

VARIABLES k,   \* the case
          S,   \* NFA states the path may be in
          D,   \* what may follow: set of <<rule, continuation>>
          b,   \* the letter just read
          off  \* found to differ
vars == <<k, S, D, b, off>>
View == <<k, S, D, off>>

N == Cases[k].nfa
RECURSIVE Closure(_, _)
Closure(c, X) ==
    LET Y == X \cup UNION {{Cases[c].nfa[x].eps[i] : i \in DOMAIN Cases[c].nfa[x].eps} : x \in X}
    IN IF Y = X THEN X ELSE Closure(c, Y)

StepNfa(X, x) ==
    IF x < 256
    THEN UNION {UNION {{N[s].by[i][3][j] : j \in DOMAIN N[s].by[i][3]}
                       : i \in {i \in DOMAIN N[s].by : N[s].by[i][1] <= x /\ x <= N[s].by[i][2]}} : s \in X}
    ELSE UNION {{e[2] : e \in {e \in Edges[k][s] : e[1] = x}} : s \in X}
StepExpr(X, x) == UNION {{<<y[1], d>> : d \in TCont(Cases[k].T, y[2], x)} : y \in X}

\* The rules at whose end the path, and the reading, may be
NfaAccepts == {N[s].acc : s \in {s \in S : N[s].acc >= 0}}
ExprAccepts == {Cases[k].ids[y[1]] : y \in {y \in D : TNullCont(Cases[k].T, y[2])}}
Agree == NfaAccepts = ExprAccepts

Init == \E c \in DOMAIN Cases :
          /\ k = c /\ S = Closure(c, {1}) /\ b = -1 /\ off = FALSE
          /\ D = {<<i, <<Frame(Cases[c].roots[i])>>>> : i \in DOMAIN Cases[c].roots}
Read ==
    /\ ~off /\ Agree /\ (S # {} \/ D # {})
    /\ \E x \in Letters[k] : /\ b' = x
                             /\ S' = Closure(k, StepNfa(S, x))
                             /\ D' = StepExpr(D, x)
    /\ UNCHANGED <<k, off>>
Reject ==
    /\ ~off /\ ~Agree
    /\ PrintT(<<"REJECT", k>>)
    /\ off' = TRUE /\ S' = {} /\ D' = {} /\ UNCHANGED <<k, b>>
Spec == Init /\ [][Read \/ Reject]_vars

Explains == ~off => Agree
=============================================================================
