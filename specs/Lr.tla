--------------------------------- MODULE Lr ---------------------------------
(***************************************************************************)
(* What a generated parser does.  A grammar is a sequence of productions   *)
(* [id, h, b]: head, body (a sequence of symbols); the first head is where *)
(* sentences start.  Everything here is a definition about one grammar G.  *)
(*   - Sentence(w): w can be derived;  Viable(w): some sentence starts     *)
(*     with w;                                                             *)
(*   - SlrConflict, LalrConflict: two actions of the automaton of LR(0)    *)
(*     item sets clash on a symbol, with lookaheads as of SLR(1), LALR(1). *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Heads(G) == {G[i].h : i \in DOMAIN G}
StartOf(G) == G[1].h
Of(G, A) == {i \in DOMAIN G : G[i].h = A}

-----------------------------------------------------------------------------
(* Derivations of a given word                                             *)
\* <<A, i, j>>: A derives w[i..j-1]
RECURSIVE Spans(_, _, _, _, _, _)
\* where a body that starts at position i may end, D being what is known of nonterminals
Spans(G, w, D, b, n, I) ==
    IF n > Len(b) \/ I = {} THEN I
    ELSE IF b[n] \in Heads(G)
         THEN Spans(G, w, D, b, n + 1, {d[3] : d \in {x \in D : x[1] = b[n] /\ x[2] \in I}})
         ELSE Spans(G, w, D, b, n + 1, {i + 1 : i \in {x \in I : x <= Len(w) /\ w[x] = b[n]}})

RECURSIVE Derived(_, _, _)
Derived(G, w, D) ==
    LET D2 == UNION {UNION {{<<G[q].h, i, j>> : j \in Spans(G, w, D, G[q].b, 1, {i})} : i \in 1..Len(w) + 1}
                     : q \in DOMAIN G}
    IN IF D2 \subseteq D THEN D ELSE Derived(G, w, D \cup D2)
Sentence(G, w) == <<StartOf(G), 1, Len(w) + 1>> \in Derived(G, w, {})

\* <<A, i>>: A derives something that starts with w[i..] (every nonterminal derives some word)
RECURSIVE Starting(_, _, _, _)
Starting(G, w, D, P) ==
    LET Ok(b, i) == \/ i = Len(w) + 1
                    \/ \E n \in DOMAIN b :
                         \E m \in Spans(G, w, D, SubSeq(b, 1, n - 1), 1, {i}) :
                            \/ m = Len(w) + 1
                            \/ b[n] \in Heads(G) /\ <<b[n], m>> \in P
                            \/ b[n] \notin Heads(G) /\ m = Len(w) /\ w[m] = b[n]
        P2 == {x \in {<<G[q].h, i>> : q \in DOMAIN G, i \in 1..Len(w) + 1} :
                 \E q \in Of(G, x[1]) : Ok(G[q].b, x[2])}
    IN IF P2 \subseteq P THEN P ELSE Starting(G, w, D, P \cup P2)
Viable(G, w) == <<StartOf(G), 1>> \in Starting(G, w, Derived(G, w, {}), {})

-----------------------------------------------------------------------------
(* FIRST, FOLLOW                                                           *)
RECURSIVE NullFix(_, _)
NullFix(G, N) == LET N2 == {G[q].h : q \in {x \in DOMAIN G : \A n \in DOMAIN G[x].b : G[x].b[n] \in N}}
                 IN IF N2 \subseteq N THEN N ELSE NullFix(G, N \cup N2)
Nullable(G) == NullFix(G, {})

\* what may be the first symbol of b from n on, F being what is known of nonterminals: pairs <<A, t>>
FirstOfBody(H, N, F, b, from) ==
    UNION {IF b[n] \in H THEN {f[2] : f \in {x \in F : x[1] = b[n]}} ELSE {b[n]}
           : n \in {m \in from..Len(b) : \A k \in from..m - 1 : b[k] \in N}}
RECURSIVE FirstFix(_, _, _, _)
FirstFix(G, H, N, F) ==
    LET F2 == UNION {{<<G[q].h, t>> : t \in FirstOfBody(H, N, F, G[q].b, 1)} : q \in DOMAIN G}
    IN IF F2 \subseteq F THEN F ELSE FirstFix(G, H, N, F \cup F2)

End == "$end"
RECURSIVE FollowFix(_, _, _, _, _)
FollowFix(G, H, N, F, W) ==
    LET W2 == UNION {UNION {IF G[q].b[n] \notin H THEN {}
                            ELSE {<<G[q].b[n], t>> : t \in FirstOfBody(H, N, F, G[q].b, n + 1)
                                                         \cup (IF \A k \in n + 1..Len(G[q].b) : G[q].b[k] \in N
                                                               THEN {x[2] : x \in {y \in W : y[1] = G[q].h}} ELSE {})}
                            : n \in DOMAIN G[q].b} : q \in DOMAIN G}
    IN IF W2 \subseteq W THEN W ELSE FollowFix(G, H, N, F, W \cup W2)

-----------------------------------------------------------------------------
(* LR(0) automaton.  Items are <<q, dot>>; q = 0 is $START_PRIME -> start. *)
Body(G, q) == IF q = 0 THEN <<StartOf(G)>> ELSE G[q].b
RECURSIVE ClosureFix(_, _, _)
ClosureFix(G, H, I) ==
    LET next == {Body(G, i[1])[i[2] + 1] : i \in {x \in I : x[2] < Len(Body(G, x[1]))}}
        I2 == {<<q, 0>> : q \in {x \in DOMAIN G : G[x].h \in next}}
    IN IF I2 \subseteq I THEN I ELSE ClosureFix(G, H, I \cup I2)
Closure(G, K) == ClosureFix(G, Heads(G), K)
Symbols(G) == UNION {{G[q].b[n] : n \in DOMAIN G[q].b} : q \in DOMAIN G} \cup Heads(G)
\* the kernel reached from kernel K with X ({} if none)
GoTo(G, C, X) == {<<i[1], i[2] + 1>> : i \in {x \in C : x[2] < Len(Body(G, x[1])) /\ Body(G, x[1])[x[2] + 1] = X}}
RECURSIVE KernelFix(_, _, _)
KernelFix(G, done, todo) ==
    IF todo = {} THEN done
    ELSE LET new == UNION {LET C == Closure(G, K) IN {GoTo(G, C, X) : X \in Symbols(G)} : K \in todo} \ {{}}
         IN KernelFix(G, done \cup todo, new \ (done \cup todo))
Kernels(G) == KernelFix(G, {}, {{<<0, 0>>}})

\* two completed productions, or a completed one and a shift, on the same symbol; LA[K, q]: the
\* symbols on which q is reduced in the state of kernel K
Clash(G, Ks, LA) ==
    \E K \in Ks :
        LET C == Closure(G, K)
            complete == {i[1] : i \in {x \in C : x[2] = Len(Body(G, x[1]))}}
            shifts == {Body(G, i[1])[i[2] + 1] : i \in {x \in C : x[2] < Len(Body(G, x[1]))}}
        IN \E q \in complete : LA[K, q] \cap (shifts \cup UNION {LA[K, r] : r \in complete \ {q}}) # {}

SlrLook(G) ==
    LET H == Heads(G)
        N == Nullable(G)
        F == FirstFix(G, H, N, {})
        W == FollowFix(G, H, N, F, {<<StartOf(G), End>>})
        After(A) == {x[2] : x \in {y \in W : y[1] = A}}
    IN [p \in Kernels(G) \X (0..Len(G)) |-> IF p[2] = 0 THEN {End} ELSE After(G[p[2]].h)]
SlrConflict(G) == Clash(G, Kernels(G), SlrLook(G))

\* LALR(1): SLR(1) lookaheads of the grammar whose nonterminals are told apart by where they occur
LalrLook(G) ==
    LET H == Heads(G)
        Ks == Kernels(G)
        C == [K \in Ks |-> Closure(G, K)]
        Go == [K \in Ks |-> [X \in Symbols(G) |-> GoTo(G, C[K], X)]]
        \* the states passed on the way from K along b
        RECURSIVE Way(_, _, _)
        Way(K, b, n) == IF n > Len(b) THEN <<K>> ELSE <<K>> \o Way(Go[K][b[n]], b, n + 1)
        \* transitions on nonterminals, with the productions that are begun there
        uses == {<<K, q>> \in Ks \X DOMAIN G : <<q, 0>> \in C[K]}
        Annot(u) == LET way == Way(u[1], G[u[2]].b, 1)
                    IN [h |-> <<u[1], G[u[2]].h>>, q |-> u[2], to |-> way[Len(way)],
                        b |-> [n \in DOMAIN G[u[2]].b |-> <<way[n], G[u[2]].b[n]>>]]
        G2 == {Annot(u) : u \in uses}
        N == Nullable(G)
        F == FirstFix(G, H, N, {})
        Rest(p, n) == [k \in 1..Len(p.b) |-> p.b[k][2]]
        \* pairs <<<<K, A>>, t>>
        RECURSIVE Fix(_)
        Fix(W) ==
            LET W2 == UNION {UNION {IF p.b[n][2] \notin H THEN {}
                                    ELSE {<<p.b[n], t>> : t \in FirstOfBody(H, N, F, Rest(p, n), n + 1)
                                                    \cup (IF \A k \in n + 1..Len(p.b) : p.b[k][2] \in N
                                                          THEN {x[2] : x \in {y \in W : y[1] = p.h}} ELSE {})}
                                    : n \in DOMAIN p.b} : p \in G2}
            IN IF W2 \subseteq W THEN W ELSE Fix(W \cup W2)
        W == Fix({<< <<{<<0, 0>>}, StartOf(G)>>, End >>})
    IN [x \in Ks \X (0..Len(G)) |->
          IF x[2] = 0 THEN {End}
          ELSE {y[2] : y \in {z \in W : \E p \in G2 : p.q = x[2] /\ p.to = x[1] /\ p.h = z[1]}}]
LalrConflict(G) == Clash(G, Kernels(G), LalrLook(G))
=============================================================================
