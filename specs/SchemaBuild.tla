----------------------------- MODULE SchemaBuild -----------------------------
(***************************************************************************)
(* Schemas put together in code: Schema objects to which one rule at a     *)
(* time is added, with a priority, until what was built is taken out.      *)
(***************************************************************************)
EXTENDS SchemaText

Empty == [delims |-> <<>>, T |-> <<>>, vars |-> <<>>]
Of(p) == [delims |-> p.delims, T |-> p.T, vars |-> p.vars]

Shifted(n, d) == IF n.t \in {"cat", "or"} THEN [n EXCEPT !.a = @ + d, !.b = @ + d]
                 ELSE IF n.t \in {"rep", "cap"} THEN [n EXCEPT !.a = @ + d]
                 ELSE n

\* the first rule of p in s, before the one that has the given priority; -1: last
With(s, p, priority) ==
    LET d == Len(s.T)
        v == [p.vars[1] EXCEPT !.root = @ + d]
        i == IF priority = -1 THEN Len(s.vars) ELSE priority
    IN [s EXCEPT !.T = @ \o [j \in DOMAIN p.T |-> Shifted(p.T[j], d)],
                 !.vars = SubSeq(@, 1, i) \o <<v>> \o SubSeq(@, i + 1, Len(@))]

Usable(p) == p.ok = "done" /\ p.vars # <<>>

\* An operation o: [op, s (which object), text, prio, missing] in the state sc, a function from objects
\* to schemas: whether it succeeds and what it leaves
Works(o, p) == CASE o.op = "load" -> ~o.missing /\ p.ok = "done"
                 [] o.op = "add" -> Usable(p)
                 [] OTHER -> TRUE
After(sc, o, p) ==
    CASE o.op \in {"new", "release"} -> [sc EXCEPT ![o.s] = Empty]
      [] o.op = "load" -> IF Works(o, p) THEN [sc EXCEPT ![o.s] = Of(p)] ELSE sc
      [] o.op = "add" -> IF Works(o, p) THEN [sc EXCEPT ![o.s] = With(@, p, o.prio)] ELSE sc

\* What the last operation, which is a release, takes out
Read1(o) == IF o.op \in {"load", "add"} THEN Parse(o.text) ELSE Fresh
RECURSIVE Run(_, _, _)
Run(sc, ops, i) == IF i = Len(ops) THEN sc[ops[i].s] ELSE Run(After(sc, ops[i], Read1(ops[i])), ops, i + 1)
Built(ops) == Run([x \in 0..1 |-> Empty], ops, 1)
=============================================================================
