-------------------------- MODULE SchemaBuildTrace ---------------------------
(* Histories of real Schema objects.  CASES: ops (op, s, text, prio,        *)
(* missing, ok, odd; delims, vars: what a release took out), end            *)
EXTENDS SchemaBuild, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES k, l, sc
vars == <<k, l, sc>>
Ops == Cases[k].ops

Taken(s) == [delims |-> s.delims, vars |-> [j \in DOMAIN s.vars |-> [n |-> s.vars[j].n, l |-> s.vars[j].l]]]
TInit == l = 1 /\ sc = [x \in 0..1 |-> Empty] /\ \E c \in DOMAIN Cases : k = c
Perform == /\ l <= Len(Ops)
        /\ LET o == Ops[l]
               p == Read1(o)
           IN /\ ~o.odd
              /\ o.ok = Works(o, p)
              /\ o.op = "release" => [delims |-> o.delims, vars |-> o.vars] = Taken(sc[o.s])
              /\ sc' = After(sc, o, p)
        /\ l' = l + 1 /\ UNCHANGED k
Accept == /\ l = Len(Ops) + 1 /\ Cases[k].end = "end"
          /\ PrintT(<<"ACCEPT", k>>)
          /\ l' = l + 1 /\ UNCHANGED <<k, sc>>
TSpec == TInit /\ [][Perform \/ Accept]_vars
Explains == l <= Len(Ops) => ENABLED Perform
=============================================================================
