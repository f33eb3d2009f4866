---------------------------- MODULE StreamTrace -----------------------------
(***************************************************************************)
(* Trace validation against Stream: what the real parser returns for an    *)
(* input must be consecutive pieces of it.                                 *)
(*                                                                         *)
(* CASES: inp, evs, end.  Strict = TRUE adds the promises about completion *)
(* (no empty event but the last, and that only after a complete line; done *)
(* with the last and only then).                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANT Strict

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES k, pos, fin, l
vars == <<k, pos, fin, l>>
Evs == Cases[k].evs
Inp == Cases[k].inp

S == INSTANCE Stream WITH total <- Len(Inp), lines <- {i \in DOMAIN Inp : Inp[i] = 10}, Totals <- Nat

RECURSIVE TokText(_, _)
TokText(ts, i) == IF i > Len(ts) THEN <<>> ELSE ts[i].s \o TokText(ts, i + 1)

\* The event's text is the next piece of the input, and its tokens spell it
Piece(o) ==
    LET n == Len(o.str) IN
    /\ pos + n <= Len(Inp)
    /\ o.str = SubSeq(Inp, pos + 1, pos + n)
    /\ TokText(o.toks, 1) = o.str

TInit == \E c \in DOMAIN Cases : k = c /\ pos = 0 /\ fin = FALSE /\ l = 1

Deliver ==
    /\ UNCHANGED k
    /\ l <= Len(Evs)
    /\ LET o == Evs[l] IN
       /\ o.rc = "Success"
       /\ IF Strict THEN TRUE ELSE Piece(o)
       /\ IF o.done THEN IF Strict THEN S!Finish(Len(o.str)) ELSE S!Last(Len(o.str))
          ELSE IF Strict THEN S!Event(Len(o.str))
          ELSE ~fin /\ pos' = pos + Len(o.str) /\ fin' = FALSE
    /\ l' = l + 1

Accept ==
    /\ fin /\ l = Len(Evs) + 1 /\ Cases[k].end = "end"
    /\ PrintT(<<"ACCEPT", k>>)
    /\ l' = l + 1
    /\ UNCHANGED <<k, pos, fin>>

TNext == Deliver \/ Accept
TSpec == TInit /\ [][TNext]_vars

Explains == l <= Len(Evs) => ENABLED Deliver
=============================================================================
