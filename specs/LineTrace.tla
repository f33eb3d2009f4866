----------------------------- MODULE LineTrace ------------------------------
(***************************************************************************)
(* Trace validation of line numbers, against nothing but the tokens: they  *)
(* tile the input, so the line a token ends on is the number of newlines   *)
(* in all tokens up to and including it.                                   *)
(*                                                                         *)
(* CASES: evs, the tokens (ty, s, ln) of each event of a run; end.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
NL == 10
VARIABLES k, e, i,   \* case, event, next token of it
          lines      \* newlines so far
vars == <<k, e, i, lines>>

Evs == Cases[k].evs
Count(s) == Len(SelectSeq(s, LAMBDA c : c = NL))
After(t) == lines + Count(t.s)

\* A newline that was cut off the first token of the next event may carry that token's line
CutOff(t) == /\ i = Len(Evs[e]) /\ t.s = <<NL>> /\ t.ty = <<"$UncaughtString">>
             /\ e < Len(Evs) /\ Evs[e + 1] # <<>>
             /\ t.ln = After(t) + Count(Evs[e + 1][1].s)

Init == k \in DOMAIN Cases /\ e = 1 /\ i = 1 /\ lines = 0
Token == /\ e <= Len(Evs) /\ i <= Len(Evs[e])
         /\ LET t == Evs[e][i] IN
            /\ t.ln = After(t) \/ CutOff(t)
            /\ lines' = After(t)
         /\ i' = i + 1 /\ UNCHANGED <<k, e>>
Event == /\ e <= Len(Evs) /\ i > Len(Evs[e])
         /\ e' = e + 1 /\ i' = 1 /\ UNCHANGED <<k, lines>>
Accept == /\ e = Len(Evs) + 1 /\ i = 1 /\ Cases[k].end = "end"
          /\ PrintT(<<"ACCEPT", k>>)
          /\ i' = 2 /\ UNCHANGED <<k, e, lines>>
TNext == Token \/ Event \/ Accept
TSpec == Init /\ [][TNext]_vars
Explains == (e <= Len(Evs) /\ i <= Len(Evs[e])) => ENABLED Token
=============================================================================
