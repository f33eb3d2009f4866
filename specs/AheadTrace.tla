----------------------------- MODULE AheadTrace -----------------------------
(* Trace validation against ReadAhead.  CASES: first, recs (out, longest, ahead, ask, mem, warm, done), end *)
EXTENDS ReadAhead, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES k, l
tvars == <<vars, k, l>>
Recs == Cases[k].recs
TInit == \E c \in DOMAIN Cases : k = c /\ l = 1 /\ Init(Cases[c].first)
\* the next event is no longer than what has been returned by the next record
NextLongest(i) == Recs[IF i < Len(Recs) THEN i + 1 ELSE i].longest
Step == /\ UNCHANGED k
        /\ l <= Len(Recs) /\ l' = l + 1
        /\ LET r == Recs[l] IN r.rc = "Success" /\ Events(r.out, r.longest, NextLongest(l), r.ahead, r.ask, r.mem, r.warm, r.done)
Accept == /\ done /\ l = Len(Recs) + 1 /\ out = Cases[k].size /\ Cases[k].end = "end"
          /\ PrintT(<<"ACCEPT", k>>)
          /\ l' = l + 1 /\ UNCHANGED <<vars, k>>
TNext == Step \/ Accept
TSpec == TInit /\ [][TNext]_tvars
Explains == l <= Len(Recs) => ENABLED Step
=============================================================================
