-------------------------------- MODULE MCLr --------------------------------
(***************************************************************************)
(* The definitions of Lr against each other: for every small grammar whose *)
(* automaton has no LALR(1) conflict, the parser that the automaton is     *)
(* decides Sentence, stops at the first token that Viable rules out, and   *)
(* what it reduces is a derivation; where there is no SLR(1) conflict      *)
(* there is no LALR(1) conflict; and a grammar with a word that has two    *)
(* derivations has a conflict.                                             *)
(***************************************************************************)
EXTENDS Lr, TLC

CONSTANTS MaxBody, MaxWord, Extra,  \* Extra: productions of A (1 or 2)
          Free               \* TRUE: only grammars without a conflict

T == {"a", "b"}
Bodies == UNION {[1..n -> T \cup {"S", "A"}] : n \in 0..MaxBody}
VARIABLES G, look, ker,  \* the automaton: lookaheads, kernels
          w, i, st,      \* the word, the tokens taken, the stack of [K, s, t] (t: the word derived)
          st2            \* "run", "yes", "no"
vars == <<G, look, ker, w, i, st, st2>>

\* every nonterminal derives a word, and A is used
RECURSIVE Productive(_, _)
Productive(g, P) ==
    LET P2 == {g[q].h : q \in {x \in DOMAIN g : \A n \in DOMAIN g[x].b : g[x].b[n] \in T \cup P}}
    IN IF P2 \subseteq P THEN P ELSE Productive(g, P \cup P2)
Sound(g) == /\ Productive(g, {}) = {"S", "A"}
            /\ \E q \in DOMAIN g : g[q].h = "S" /\ \E n \in DOMAIN g[q].b : g[q].b[n] = "A"
Grammars == {<< [h |-> "S", b |-> x], [h |-> "S", b |-> y], [h |-> "A", b |-> z] >> : x \in Bodies, y \in Bodies, z \in Bodies}
            \cup (IF Extra = 1 THEN {} ELSE
                  {<< [h |-> "S", b |-> x], [h |-> "A", b |-> y], [h |-> "A", b |-> z] >> : x \in Bodies, y \in Bodies, z \in Bodies})
Words == UNION {[1..n -> T] : n \in 0..MaxWord}

Init == /\ G \in {g \in Grammars : Sound(g) /\ g[1] # g[2] /\ g[2] # g[3]}
        /\ ker = Kernels(G) /\ look = LalrLook(G)
        /\ w = <<>> /\ i = 0 /\ st = <<>> /\ st2 = "new"

Start == /\ st2 = "new" /\ (Free => ~Clash(G, ker, look))
         /\ w' \in Words
         /\ st' = << [K |-> {<<0, 0>>}, s |-> End, t |-> <<>>] >> /\ st2' = "run"
         /\ UNCHANGED <<G, look, ker, i>>

Top == st[Len(st)]
Next1 == IF i = Len(w) THEN End ELSE w[i + 1]
Moves == {q \in DOMAIN G : <<q, Len(G[q].b)>> \in Closure(G, Top.K) /\ Next1 \in look[Top.K, q]}
Shift == /\ st2 = "run" /\ Next1 # End /\ GoTo(G, Closure(G, Top.K), Next1) # {}
         /\ st' = Append(st, [K |-> GoTo(G, Closure(G, Top.K), Next1), s |-> Next1, t |-> <<Next1>>])
         /\ i' = i + 1 /\ UNCHANGED <<G, look, ker, w, st2>>
RECURSIVE Cat(_)
Cat(es) == IF es = <<>> THEN <<>> ELSE es[1].t \o Cat(Tail(es))
Reduce == /\ st2 = "run"
          /\ \E q \in Moves :
               LET m == Len(G[q].b)
                   rest == SubSeq(st, 1, Len(st) - m)
               IN st' = Append(rest, [K |-> GoTo(G, Closure(G, rest[Len(rest)].K), G[q].h), s |-> G[q].h,
                                      t |-> Cat(SubSeq(st, Len(st) - m + 1, Len(st)))])
          /\ UNCHANGED <<G, look, ker, w, i, st2>>
CanAccept == Next1 = End /\ <<0, 1>> \in Top.K
Accept == st2 = "run" /\ CanAccept /\ st2' = "yes" /\ UNCHANGED <<G, look, ker, w, i, st>>
Refuse == /\ st2 = "run" /\ ~CanAccept /\ Moves = {}
          /\ Next1 = End \/ GoTo(G, Closure(G, Top.K), Next1) = {}
          /\ st2' = "no" /\ UNCHANGED <<G, look, ker, w, i, st>>
Next == Start \/ Shift \/ Reduce \/ Accept \/ Refuse
Spec == Init /\ [][Next]_vars

\* one action at a time
Decided == st2 = "run" =>
    Cardinality(Moves) + (IF CanAccept THEN 1 ELSE 0)
        + (IF Next1 # End /\ GoTo(G, Closure(G, Top.K), Next1) # {} THEN 1 ELSE 0) <= 1
Exact == /\ st2 = "yes" => Sentence(G, w) /\ Len(st) = 2 /\ st[2].s = "S" /\ st[2].t = w
         /\ st2 = "no" => /\ ~Sentence(G, w)
                          /\ Viable(G, SubSeq(w, 1, i))
                          /\ i < Len(w) => ~Viable(G, SubSeq(w, 1, i + 1))
\* it cannot go on for ever: the stack is never much longer than what was taken
Bounded == st2 = "run" => Len(st) <= 3 * (i + 2)
Slr == st2 = "new" => (Clash(G, ker, look) => SlrConflict(G))
=============================================================================
