----------------------------- MODULE FileTrace ------------------------------
(* Histories of the real FileReader.  CASES: files (contents), ops (op, n, keep, rc, d), end;
   n is the file's number (open), the size (read) or the delimiter (line) *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES name, pos, k, l
tvars == <<name, pos, k, l>>
F == INSTANCE FileReader WITH files <- Cases[k].files
Ops == Cases[k].ops
Op == Ops[l]
TInit == F!Init /\ l = 1 /\ \E c \in DOMAIN Cases : k = c
Step == /\ UNCHANGED k
        /\ l <= Len(Ops) /\ l' = l + 1
        /\ CASE Op.op = "open" -> F!Open(Op.n, Op.rc)
             [] Op.op = "close" -> F!Close
             [] Op.op = "new" -> F!New
             [] Op.op = "read" -> F!Read(Op.n, Op.rc, Op.d)
             [] Op.op = "line" -> F!Line(Op.n, Op.keep, Op.rc, Op.d)
Accept == /\ l = Len(Ops) + 1 /\ Cases[k].end = "end"
          /\ PrintT(<<"ACCEPT", k>>)
          /\ l' = l + 1 /\ UNCHANGED <<name, pos, k>>
TSpec == TInit /\ [][Step \/ Accept]_tvars
Explains == l <= Len(Ops) => ENABLED Step
=============================================================================
