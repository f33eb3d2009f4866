------------------------------ MODULE LrTrace -------------------------------
(***************************************************************************)
(* Trace validation of the parser generator.  A case is a grammar, what    *)
(* generating a parser for it came to, and what that parser did, one after *)
(* the other, with some inputs.                                            *)
(*                                                                         *)
(* CASES: toks ([n, ts]: name, texts; a text is a sequence of characters), *)
(*        prods ([id, h, b]), gen (TRUE: a parser was generated), full,    *)
(*        runs ([inp, ok, root, reds, col, ch, thrown]), end.              *)
(* The parser is a pushdown machine: it shifts a token or replaces the     *)
(* body of a production on top of its stack by the head.  A token that has *)
(* several names is the first of them with which a sentence can go on.     *)
(* A run is cut short where the rule of a production throws.               *)
(***************************************************************************)
EXTENDS Lr, Integers, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES k, r,    \* case; run (0: the generation is not judged yet)
          G,       \* the grammar
          toks,    \* tokens of the run's input
          stack,   \* [s, v, c]: symbol, value, number of tokens
          n,       \* tokens shifted
          ws,      \* what they were
          l        \* reductions seen
vars == <<k, r, G, toks, stack, n, ws, l>>

Case == Cases[k]
\* a production added once more has the rule that was added last
Grammar(P) ==
    LET Same(i, j) == P[j].h = P[i].h /\ P[j].b = P[i].b
        Last(i) == CHOOSE j \in DOMAIN P : Same(i, j) /\ \A m \in j + 1..Len(P) : ~Same(i, m)
        RECURSIVE Take(_)
        Take(i) == IF i > Len(P) THEN <<>>
                   ELSE (IF \E j \in 1..i - 1 : Same(i, j) THEN <<>> ELSE <<P[Last(i)]>>) \o Take(i + 1)
    IN Take(1)

RECURSIVE Str(_)
Str(cs) == IF cs = <<>> THEN "" ELSE Head(cs) \o Str(Tail(cs))

\* The longest token; where there is none the rest is no token at all
RECURSIVE Lex(_, _)
Lex(inp, at) ==
    IF at > Len(inp) THEN <<>>
    ELSE LET Is(t) == at + Len(t) - 1 <= Len(inp) /\ SubSeq(inp, at, at + Len(t) - 1) = t
             found == UNION {{<<i, t>> : t \in {Case.toks[i].ts[j] : j \in DOMAIN Case.toks[i].ts}} : i \in DOMAIN Case.toks}
             fits == {f \in found : Is(f[2])}
         IN IF fits = {} THEN << [s |-> <<>>, t |-> inp[at], at |-> at] >>
            ELSE LET best == CHOOSE f \in fits : \A g \in fits : Len(g[2]) <= Len(f[2])
                     RECURSIVE Names(_)
                     Names(i) == IF i > Len(Case.toks) THEN <<>>
                                 ELSE (IF \E j \in DOMAIN Case.toks[i].ts : Case.toks[i].ts[j] = best[2]
                                       THEN << Case.toks[i].n >> ELSE <<>>) \o Names(i + 1)
                 IN << [s |-> Names(1), t |-> Str(best[2]), at |-> at] >> \o Lex(inp, at + Len(best[2]))

Begin(i) == /\ toks' = (IF i > Len(Case.runs) THEN <<>> ELSE Lex(Case.runs[i].inp, 1))
            /\ stack' = <<>> /\ n' = 0 /\ ws' = <<>> /\ l' = 0 /\ r' = i

Init == k \in DOMAIN Cases /\ G = Grammar(Cases[k].prods) /\ r = 0 /\ toks = <<>> /\ stack = <<>> /\ n = 0 /\ ws = <<>> /\ l = 0

Generate == /\ r = 0
            /\ IF Case.gen THEN ~LalrConflict(G) ELSE SlrConflict(G)
            /\ Begin(1) /\ UNCHANGED <<k, G>>

Run == Case.runs[r]
Running == r > 0 /\ r <= Len(Case.runs)
Value(q, entries) ==
    LET RECURSIVE Kids(_)
        Kids(i) == IF i > Len(entries) THEN "" ELSE " " \o entries[i].v \o Kids(i + 1)
        RECURSIVE Sum(_)
        Sum(i) == IF i > Len(entries) THEN 0 ELSE entries[i].c + Sum(i + 1)
    IN [s |-> G[q].h, c |-> Sum(1),
        v |-> IF Case.full THEN "(" \o G[q].id \o Kids(1) \o ")" ELSE ToString(Sum(1))]

\* the next recorded reduction applies to the top of the stack
Applies == /\ l < Len(Run.reds)
           /\ \E q \in DOMAIN G :
                /\ G[q].id = Run.reds[l + 1].p
                /\ LET m == Len(G[q].b)
                       top == SubSeq(stack, Len(stack) - m + 1, Len(stack))
                   IN /\ m <= Len(stack)
                      /\ \A i \in 1..m : top[i].s = G[q].b[i]
                      /\ Value(q, top).v = Run.reds[l + 1].v

\* the place of the name that is taken
Taken(names) == IF Len(names) = 1 THEN {1}
                ELSE {i \in DOMAIN names : /\ Viable(G, Append(ws, names[i]))
                                           /\ \A j \in 1..i - 1 : ~Viable(G, Append(ws, names[j]))}
Shift == /\ Running /\ n < Len(toks) /\ toks[n + 1].s # <<>>
         /\ Case.full \/ ~Applies  \* (long inputs: one way is enough)
         /\ \E i \in Taken(toks[n + 1].s) :
              /\ stack' = Append(stack, [s |-> toks[n + 1].s[i], v |-> toks[n + 1].t, c |-> 1])
              /\ ws' = Append(ws, toks[n + 1].s[i])
         /\ n' = n + 1 /\ UNCHANGED <<k, r, G, toks, l>>

Reduce == /\ Running /\ Applies
          /\ \E q \in DOMAIN G :
               /\ G[q].id = Run.reds[l + 1].p
               /\ LET m == Len(G[q].b)
                      top == SubSeq(stack, Len(stack) - m + 1, Len(stack))
                  IN stack' = Append(SubSeq(stack, 1, Len(stack) - m), Value(q, top))
          /\ l' = l + 1 /\ UNCHANGED <<k, r, G, toks, n, ws>>

Done == Running /\ l = Len(Run.reds)
Succeed == /\ Done /\ Run.ok /\ n = Len(toks)
           /\ Len(stack) = 1 /\ stack[1].s = StartOf(G) /\ stack[1].v = Run.root
           /\ Begin(r + 1) /\ UNCHANGED <<k, G>>

\* It stops at the first token with which no sentence can go on, and says where that is
Refuse == /\ Done /\ ~Run.ok /\ ~Run.thrown
          /\ Viable(G, ws)
          /\ IF n = Len(toks)
             THEN /\ ~Sentence(G, ws)
                  /\ Run.col = Len(Run.inp) + 1 /\ Run.ch = ""
             ELSE /\ \A i \in DOMAIN toks[n + 1].s : ~Viable(G, Append(ws, toks[n + 1].s[i]))
                  /\ Run.col = toks[n + 1].at /\ Run.ch = Run.inp[toks[n + 1].at]
          /\ Begin(r + 1) /\ UNCHANGED <<k, G>>

\* A rule throws: what is done so far is forgotten
Thrown == /\ Done /\ ~Run.ok /\ Run.thrown
          /\ Begin(r + 1) /\ UNCHANGED <<k, G>>

Accept == /\ r = Len(Case.runs) + 1 /\ Case.end = "end" /\ l = 0
          /\ PrintT(<<"ACCEPT", k>>)
          /\ l' = 1 /\ UNCHANGED <<k, r, G, toks, stack, n, ws>>
TNext == Generate \/ Shift \/ Reduce \/ Succeed \/ Refuse \/ Thrown \/ Accept
TSpec == Init /\ [][TNext]_vars
=============================================================================
