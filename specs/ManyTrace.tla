----------------------------- MODULE ManyTrace ------------------------------
(***************************************************************************)
(* Several parsers at once, used in turns (or by threads of their own, or  *)
(* one reading what another returns).  They share nothing: the state is    *)
(* one LogSem state per parser, and a step of one leaves the others alone. *)
(* The parser that acts has its state in LogSem's variables; the states of *)
(* the others are held aside.                                              *)
(*                                                                         *)
(* CASES: acts ([sc, inps]: schema, input of each run), log (what was      *)
(* observed in turn: a, the parser; set, TRUE if it was reset and given    *)
(* its next input; otherwise what a parse call returned), end.             *)
(* Every parser is reset at least once, and its last run is complete.      *)
(***************************************************************************)
EXTENDS LogSem, Json, IOUtils

CONSTANT Aspects

Raw == ndJsonDeserialize(IOEnv.SCHEMAS)
Cases == ndJsonDeserialize(IOEnv.CASES)
Compiled == [i \in DOMAIN Raw |-> Compile(Raw[i])]
\* what is parsed: <<case, parser, run>>
TSchOf(c) == Compiled[Cases[c[1]].acts[c[2]].sc]
TInpOf(c) == IF c[3] = 0 THEN <<>> ELSE Cases[c[1]].acts[c[2]].inps[c[3]]

VARIABLES l,     \* next line of the log
          held   \* the states of the parsers (that of the acting one is out of date)
tvars == <<vars, l, held>>
LT == INSTANCE LogTrace

Case == Cases[k[1]]
Log == Case.log
Now == k[2]
Mine == l <= Len(Log) /\ Log[l].a = Now

State == [k |-> k, p |-> p, st |-> st, q |-> q, m |-> m, mt |-> mt, sof |-> sof, tq |-> tq,
          toks |-> toks, hts |-> hts, ev |-> ev, fin |-> fin]
Fresh(c, a) == [k |-> <<c, a, 0>>, p |-> 1, st |-> {}, q |-> 1, m |-> 1, mt |-> <<>>, sof |-> TRUE, tq |-> <<>>,
                toks |-> <<>>, hts |-> FALSE, ev |-> <<>>, fin |-> FALSE]

TInit == \E c \in DOMAIN Cases :
            /\ k = <<c, 1, 0>>
            /\ p = 1 /\ st = {} /\ q = 1 /\ m = 1 /\ mt = <<>> /\ sof = TRUE
            /\ tq = <<>> /\ toks = <<>> /\ hts = FALSE /\ ev = <<>> /\ fin = FALSE
            /\ l = 1 /\ held = [a \in DOMAIN Cases[c].acts |-> Fresh(c, a)]

Turn == /\ l <= Len(Log) /\ Log[l].a # Now
        /\ held' = [held EXCEPT ![Now] = State]
        /\ LET s == held[Log[l].a] IN
           /\ k' = s.k /\ p' = s.p /\ st' = s.st /\ q' = s.q /\ m' = s.m /\ mt' = s.mt /\ sof' = s.sof
           /\ tq' = s.tq /\ toks' = s.toks /\ hts' = s.hts /\ ev' = s.ev /\ fin' = s.fin
        /\ UNCHANGED l

Set == /\ Mine /\ Log[l].set
       /\ ~Log[l].done
       /\ k[3] < Len(Case.acts[Now].inps)
       /\ Restart(<<k[1], Now, k[3] + 1>>)
       /\ l' = l + 1 /\ UNCHANGED held

Silent == /\ Mine /\ ~Log[l].set /\ k[3] > 0
          /\ ReadChar \/ TakeToken
          /\ UNCHANGED <<l, held>>

Return == /\ Mine /\ ~Log[l].set
          /\ ev # <<>> /\ LT!Matches(ev[1], Log[l])
          /\ ev' = <<>> /\ l' = l + 1
          /\ UNCHANGED <<k, lexvars, tq, toks, hts, fin, held>>

Finished(s) == s.k[3] = Len(Case.acts[s.k[2]].inps) /\ s.fin /\ s.ev = <<>>
Accept == /\ l = Len(Log) + 1 /\ Case.end = "end"
          /\ \A a \in DOMAIN held : Finished(IF a = Now THEN State ELSE held[a])
          /\ PrintT(<<"ACCEPT", k[1]>>)
          /\ l' = l + 1 /\ UNCHANGED <<vars, held>>

TNext == Turn \/ Set \/ Silent \/ Return \/ Accept
TSpec == TInit /\ [][TNext]_tvars
Explains == (ev # <<>> /\ Mine) => (ENABLED Return \/ ENABLED Set)
=============================================================================
