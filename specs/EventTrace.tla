----------------------------- MODULE EventTrace -----------------------------
(***************************************************************************)
(* Trace validation of what can be asked of an event against the event's   *)
(* own tokens: whatever tokens it has, its timestamp, variables, logtype   *)
(* and multi-line flag describe them.  The views are LogSem's, evaluated   *)
(* over the concatenation of the token texts.                              *)
(***************************************************************************)
EXTENDS LogSem, Json, IOUtils

CONSTANT Aspects

Raw == ndJsonDeserialize(IOEnv.SCHEMAS)
Cases == ndJsonDeserialize(IOEnv.CASES)
Compiled == [i \in DOMAIN Raw |-> Compile(Raw[i])]
TSchOf(c) == Compiled[Cases[c[1]].sc]

RECURSIVE Flat(_, _)
Flat(ts, i) == IF i > Len(ts) THEN <<>> ELSE ts[i].s \o Flat(ts, i + 1)
\* a case of this module is <<case, event>>
TInpOf(c) == IF c[2] > Len(Cases[c[1]].evs) \/ Cases[c[1]].evs[c[2]].rc # "Success" THEN <<>>
             ELSE Flat(Cases[c[1]].evs[c[2]].toks, 1)

RECURSIVE Place(_, _, _)
Place(ts, i, at) == IF i > Len(ts) THEN <<>>
                    ELSE << [ty |-> ts[i].ty, s |-> at, e |-> at + Len(ts[i].s)] >>
                         \o Place(ts, i + 1, at + Len(ts[i].s))

AsEvent(o) == LET ts == Place(o.toks, 1, 1) IN
              [toks |-> ts, hts |-> ts # <<>> /\ IsTs(ts[1].ty), last |-> o.done]

Agrees(o, a) ==
    LET e == AsEvent(o) IN
    CASE a = "ts" -> o.ts = EvTimestamp(e)
      [] a = "lt" -> o.lt = EvLogtype(e)
      [] a = "ml" -> o.ml = EvMultiline(e)
      [] a = "str" -> o.str = Inp
      [] a = "same" -> o.same
      [] a = "vars" -> /\ {[n |-> o.vars[i].n, o |-> o.vars[i].o] : i \in DOMAIN o.vars} = EvVars(e)
                       /\ \A i, j \in DOMAIN o.vars : o.vars[i].n = o.vars[j].n => i = j

TInit == \E c \in DOMAIN Cases : InitCase(<<c, 1>>)
Step == /\ k[2] <= Len(Cases[k[1]].evs)
        /\ Cases[k[1]].evs[k[2]].rc = "Success"
        /\ \A a \in Aspects : Agrees(Cases[k[1]].evs[k[2]], a)
        /\ k' = <<k[1], k[2] + 1>>
        /\ UNCHANGED <<lexvars, tq, toks, hts, ev, fin>>
Accept == /\ k[2] = Len(Cases[k[1]].evs) + 1 /\ Cases[k[1]].end = "end" /\ ~fin
          /\ PrintT(<<"ACCEPT", k[1]>>)
          /\ fin' = TRUE /\ UNCHANGED <<k, lexvars, tq, toks, hts, ev>>
TNext == Step \/ Accept
TSpec == TInit /\ [][TNext]_vars
Explains == k[2] <= Len(Cases[k[1]].evs) => ENABLED Step
=============================================================================
