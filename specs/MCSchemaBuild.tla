---------------------------- MODULE MCSchemaBuild ----------------------------
(* What is built is what a text with the same lines in the same order says *)
EXTENDS SchemaBuild, TLC, Json, IOUtils
CONSTANT N
Conf == ndJsonDeserialize(IOEnv.CONF)[1]     \* lines, others: texts without a rule, first: one to load
VARIABLES sc, order, made
vars == <<sc, order, made>>
RECURSIVE Join(_)
Join(ls) == IF ls = <<>> THEN <<>> ELSE IF Len(ls) = 1 THEN ls[1] ELSE ls[1] \o <<10>> \o Join(Tail(ls))
RECURSIVE Tree(_, _)
Tree(T, n) == LET nd == T[n] IN
              CASE nd.t \in {"cat", "or"} -> <<nd.t, Tree(T, nd.a), Tree(T, nd.b)>>
                [] nd.t = "rep" -> <<"rep", nd.lo, nd.hi, Tree(T, nd.a)>>
                [] nd.t = "cap" -> <<"cap", nd.n, Tree(T, nd.a)>>
                [] nd.t = "set" -> <<"set", nd.neg, nd.r>>
                [] OTHER -> <<nd.t>>
Meaning(s) == [i \in DOMAIN s.vars |-> <<s.vars[i].n, Tree(s.T, s.vars[i].root)>>]

Do(o) == sc' = After(sc, o, Read1(o)) /\ made' = made + 1
Op(op, s, text, prio) == [op |-> op, s |-> s, text |-> text, prio |-> prio, missing |-> FALSE]
Init == sc = [x \in 0..1 |-> Empty] /\ order = [x \in 0..1 |-> <<>>] /\ made = 0
Next == /\ made < N
        /\ \E s \in 0..1 :
             \/ /\ Do(Op("load", s, Join(Conf.first), -1))
                /\ order' = [order EXCEPT ![s] = Conf.first]
             \/ \E i \in DOMAIN Conf.lines : \E prio \in -1..Len(order[s]) :
                  /\ Do(Op("add", s, Conf.lines[i], prio))
                  /\ LET at == IF prio = -1 THEN Len(order[s]) ELSE prio
                     IN order' = [order EXCEPT ![s] = SubSeq(@, 1, at) \o <<Conf.lines[i]>> \o SubSeq(@, at + 1, Len(@))]
             \/ \E i \in DOMAIN Conf.others :
                  Do(Op("add", s, Conf.others[i], 0)) /\ UNCHANGED order
             \/ Do(Op("release", s, <<>>, -1)) /\ order' = [order EXCEPT ![s] = <<>>]
Spec == Init /\ [][Next]_vars
SameAsText == \A s \in 0..1 : order[s] = <<>> \/ Meaning(sc[s]) = Meaning(Parse(Join(order[s])))
EmptyAsNew == \A s \in 0..1 : order[s] = <<>> => sc[s].vars = <<>>
=============================================================================
