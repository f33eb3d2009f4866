----------------------------- MODULE RegexEquiv -----------------------------
(***************************************************************************)
(* The automaton that the library built against the meaning of the         *)
(* expressions it was built for: the product of the automaton's states and *)
(* of Rules' derivative sets is explored until it is closed, so that what  *)
(* holds holds for the strings of all lengths.                             *)
(* CASES: kind "rules" (T, roots, ids), "text" (text: of a schema, ids),   *)
(* "schema" (sch: a raw schema, and isd, isf: the delimiters and first     *)
(* characters of the lexer), "lexer" (text, names, isd, isf), "built" (ops *)
(* of SchemaBuild, names, isd, isf) or "part" (ops, part: one rule of it); *)
(* dfa: <<[ty, tr |-> <<lo, hi, dest>>s]>>, root 1, dest 0: no transition. *)
(***************************************************************************)
EXTENDS Rules, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

Texts == INSTANCE SchemaText
Builds == INSTANCE SchemaBuild

Sem == [c \in DOMAIN Cases |->
          IF Cases[c].kind = "schema" THEN Compile(Cases[c].sch)
          ELSE IF Cases[c].kind = "lexer"
          THEN LET p == Texts!Parse(Cases[c].text)
               IN Compile([delims |-> p.delims[Len(p.delims)], T |-> p.T,
                           vars |-> [i \in DOMAIN p.vars |-> [n |-> Cases[c].names[i], root |-> p.vars[i].root]],
                           nb |-> <<>>])
          ELSE IF Cases[c].kind = "built"
          THEN LET p == Builds!Built(Cases[c].ops)
               IN Compile([delims |-> p.delims[Len(p.delims)], T |-> p.T,
                           vars |-> [i \in DOMAIN p.vars |-> [n |-> Cases[c].names[i], root |-> p.vars[i].root]],
                           nb |-> <<>>])
          ELSE IF Cases[c].kind = "part"
          THEN LET p == Builds!Built(Cases[c].ops)
               IN [T |-> p.T, delims |-> {},
                   rules |-> << [n |-> "100", pre |-> {}, k |-> Cont(p.vars[Cases[c].part].root)] >>]
          ELSE IF Cases[c].kind = "text"
          THEN LET p == Texts!Parse(Cases[c].text)
               IN [T |-> p.T, delims |-> {},
                   rules |-> [i \in DOMAIN p.vars |->
                                 [n |-> Cases[c].ids[i], pre |-> {}, k |-> Cont(p.vars[i].root)]]]
          ELSE [T |-> Cases[c].T, delims |-> {},
                rules |-> [i \in DOMAIN Cases[c].roots |->
                              [n |-> Cases[c].ids[i], pre |-> {}, k |-> Cont(Cases[c].roots[i])]]]]

\* One byte of each class of bytes that neither side tells apart
Reps == [c \in DOMAIN Cases |->
           ({0} \cup Boundaries(Sem[c].T)
              \cup UNION {{d, d + 1} : d \in Sem[c].delims}
              \cup UNION {UNION {{d, d + 1} : d \in Sem[c].rules[i].pre} : i \in DOMAIN Sem[c].rules}
              \cup UNION {{Cases[c].dfa[s].tr[i][1] : i \in DOMAIN Cases[c].dfa[s].tr} : s \in DOMAIN Cases[c].dfa})
           \cap 0..255]

VARIABLES k,   \* the case
          q,   \* state of the automaton, 0: none, -1: found to differ
          s,   \* what may still follow
          b    \* the byte just read
vars == <<k, q, s, b>>
View == <<k, q, s>>

Dfa == Cases[k].dfa
Target(x, c) ==
    IF x = 0 THEN 0
    ELSE LET tr == Dfa[x].tr
             i == CHOOSE i \in DOMAIN tr : tr[i][1] <= c /\ c <= tr[i][2]
         IN tr[i][3]

\* The names reported, each once
RECURSIVE Once(_, _)
Once(w, acc) ==
    IF w = <<>> THEN acc
    ELSE Once(Tail(w), IF \E i \in DOMAIN acc : acc[i] = Head(w) THEN acc ELSE Append(acc, Head(w)))

Reported == IF q = 0 THEN <<>> ELSE Once(Dfa[q].ty, <<>>)
Meant == NamesInOrder(Sem[k].rules, Accepted(Sem[k], s))
Agree == Reported = Meant /\ (q > 0 => Dfa[q].acc = (Meant # <<>>))
\* The lexer's sets of characters
Chars == Cases[k].kind \in {"schema", "lexer", "built"} =>
             /\ {Cases[k].isd[i] : i \in DOMAIN Cases[k].isd} = Sem[k].delims
             /\ {Cases[k].isf[i] : i \in DOMAIN Cases[k].isf} = Sem[k].first

Init == \E c \in DOMAIN Cases : k = c /\ q = 1 /\ s = Start /\ b = -1

Ok == Agree /\ (b = -1 => Chars)
Read ==
    /\ q >= 0 /\ (q # 0 \/ s # {}) /\ Ok
    /\ \E c \in Reps[k] : /\ b' = c
                          /\ q' = Target(q, c)
                          /\ s' = Delta(Sem[k], s, c)
    /\ UNCHANGED k
Reject ==
    /\ q >= 0 /\ ~Ok
    /\ PrintT(<<"REJECT", k>>)
    /\ q' = -1 /\ s' = {} /\ UNCHANGED <<k, b>>
Next == Read \/ Reject
Spec == Init /\ [][Next]_vars

Explains == q >= 0 => Ok
=============================================================================
