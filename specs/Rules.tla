------------------------------- MODULE Rules -------------------------------
(* What a schema means: its delimiters and variables as rules of Regex.tla *)
EXTENDS Regex

SOF == 253           \* the byte that internally stands for the start of the input
NL == 10
Uncaught == <<"$UncaughtString">>

-----------------------------------------------------------------------------
(* Compiling a schema: newLine comes first; `timestamp` may only start the  *)
(* input or a line; every other rule is preceded by a delimiter (or the     *)
(* start of the input), which is part of the token.                         *)

Cont(root) == IF root = 0 THEN <<>> ELSE <<Frame(root)>>

RECURSIVE CompileVars(_, _, _)
CompileVars(vars, dl, i) ==
    IF i > Len(vars) THEN <<>>
    ELSE (IF vars[i].n = "timestamp"
          THEN << [n |-> "firstTimestamp", pre |-> {SOF}, k |-> Cont(vars[i].root)],
                  [n |-> "newLineTimestamp", pre |-> {NL}, k |-> Cont(vars[i].root)] >>
          ELSE << [n |-> vars[i].n, pre |-> dl \cup {SOF}, k |-> Cont(vars[i].root)] >>)
         \o CompileVars(vars, dl, i + 1)

\* raw: [delims |-> sequence of bytes, T |-> nodes, vars |-> <<[n, root]>>,
\*       nb |-> [name |-> its bytes]]
Compile(raw) ==
    LET dl == {raw.delims[i] : i \in DOMAIN raw.delims}
        rules == << [n |-> "newLine", pre |-> {NL}, k |-> <<>>] >> \o CompileVars(raw.vars, dl, 1)
    IN [delims |-> dl \cup {SOF}, T |-> raw.T, rules |-> rules, 
        first |-> UNION {rules[i].pre : i \in DOMAIN rules}, nb |-> raw.nb]

\* "." does not match a delimiter, except in a timestamp
Delta(sch, st, c) ==
    LET ts == {x \in st : x[1] # 0 /\ sch.rules[x[1]].n \in {"firstTimestamp", "newLineTimestamp"}}
    IN DRules(sch.T, sch.rules, ts, c, {}) \cup DRules(sch.T, sch.rules, st \ ts, c, sch.delims)

Accepted(sch, st) == AcceptingRules(sch.T, sch.rules, st)
=============================================================================
