----------------------------- MODULE TreeTrace ------------------------------
(* Histories of the real interval tree against IntervalTree.  CASES: ops (op, lo, hi, v, res, all), end *)
EXTENDS IntervalTree, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES k, l
tvars == <<held, k, l>>
Ops == Cases[k].ops
Op == Ops[l]
TInit == Init /\ l = 1 /\ \E c \in DOMAIN Cases : k = c
Yields == Len(Op.res) = Cardinality(Elements(Op.res))
Step == /\ UNCHANGED k
        /\ l <= Len(Ops) /\ l' = l + 1
        /\ CASE Op.op = "insert" -> Insert(Op.lo, Op.hi, Op.v)
             [] Op.op = "find" -> Yields /\ Find(Op.lo, Op.hi, Elements(Op.res))
             [] Op.op = "pop" -> Yields /\ Pop(Op.lo, Op.hi, Elements(Op.res))
             [] Op.op = "reset" -> Reset
        /\ InOrder(Op.all) /\ Elements(Op.all) = held'
Accept == /\ l = Len(Ops) + 1 /\ Cases[k].end = "end"
          /\ PrintT(<<"ACCEPT", k>>)
          /\ l' = l + 1 /\ UNCHANGED <<held, k>>
TSpec == TInit /\ [][Step \/ Accept]_tvars
Explains == l <= Len(Ops) => ENABLED Step
=============================================================================
