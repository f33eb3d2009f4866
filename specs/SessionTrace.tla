---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* The life of one parser: it is reset and given an input as often as the  *)
(* user likes, at whatever point of the input before, and the reader may   *)
(* fail.  Each run of a session is LogSem on the run's own input; a failed *)
(* read shows as a parse call that returns the reader's error code, in     *)
(* between the events.                                                     *)
(*                                                                         *)
(* CASES: sc, runs (inp, evs; the runs before the last may be cut short),  *)
(* full (the last run is complete), end.  Per call: rc, er (reads that     *)
(* failed so far), ec (code of the last failure), and the event.           *)
(***************************************************************************)
EXTENDS LogSem, Json, IOUtils

CONSTANT Aspects

Raw == ndJsonDeserialize(IOEnv.SCHEMAS)
Cases == ndJsonDeserialize(IOEnv.CASES)
Compiled == [i \in DOMAIN Raw |-> Compile(Raw[i])]
\* a case of this module is <<case, run>>
TSchOf(c) == Compiled[Cases[c[1]].sc]
TInpOf(c) == Cases[c[1]].runs[c[2]].inp

VARIABLES l,     \* next call of the run
          errs   \* failed reads of the run so far
tvars == <<vars, l, errs>>
LT == INSTANCE LogTrace

Case == Cases[k[1]]
Run == Case.runs[k[2]]
Evs == Run.evs
IsLast == k[2] = Len(Case.runs)

TInit == \E c \in DOMAIN Cases : InitCase(<<c, 1>>) /\ l = 1 /\ errs = 0

Silent == /\ l <= Len(Evs) \/ (IsLast /\ Case.full)
          /\ ReadChar \/ TakeToken
          /\ UNCHANGED <<l, errs>>

Return ==
    /\ ev # <<>> /\ l <= Len(Evs)
    /\ LT!Matches(ev[1], Evs[l])
    /\ Evs[l].er = errs
    /\ ev' = <<>> /\ l' = l + 1
    /\ UNCHANGED <<k, lexvars, tq, toks, hts, fin, errs>>

\* (at the latest possible moment: the event that is being parsed is known)
Fail ==
    /\ ev # <<>> /\ l <= Len(Evs)
    /\ Evs[l].rc # "Success" /\ Evs[l].rc = Evs[l].ec
    /\ Evs[l].er = errs + 1
    /\ errs' = errs + 1 /\ l' = l + 1
    /\ UNCHANGED vars

Reset ==
    /\ l > Len(Evs) /\ ~IsLast
    /\ ~Case.runs[k[2] + 1].done       \* as a new parser, it is not done
    /\ Restart(<<k[1], k[2] + 1>>)
    /\ l' = 1 /\ errs' = 0

Accept ==
    /\ IsLast /\ l = Len(Evs) + 1 /\ Case.end = "end"
    /\ IF Case.full THEN fin /\ ev = <<>> ELSE TRUE
    /\ PrintT(<<"ACCEPT", k[1]>>)
    /\ l' = l + 1
    /\ UNCHANGED <<vars, errs>>

TNext == Silent \/ Return \/ Fail \/ Reset \/ Accept
TSpec == TInit /\ [][TNext]_tvars
Explains == (ev # <<>> /\ l <= Len(Evs)) => (ENABLED Return \/ ENABLED Fail)
=============================================================================
