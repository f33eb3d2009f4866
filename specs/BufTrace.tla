------------------------------ MODULE BufTrace ------------------------------
(***************************************************************************)
(* Trace validation of BufferParser: every call must be one of BufSem's,   *)
(* return what it returns and leave the offset where it leaves it.         *)
(* CASES: sc, inp, end, and per call: from, lim, fin, rc, off, done and    *)
(* the event (positions are 0-based positions in the whole stream).        *)
(***************************************************************************)
EXTENDS BufSem, Json, IOUtils

CONSTANT Aspects

Raw == ndJsonDeserialize(IOEnv.SCHEMAS)
Cases == ndJsonDeserialize(IOEnv.CASES)
Compiled == [i \in DOMAIN Raw |-> Compile(Raw[i])]
TSchOf(c) == Compiled[Cases[c].sc]
TInpOf(c) == Cases[c].inp
Evs == Cases[k].evs

VARIABLE l
tvars == <<vars, bufvars, l>>
LT == INSTANCE LogTrace

TInit == \E c \in DOMAIN Cases : InitBuf(c) /\ l = 1

TCall == /\ l <= Len(Evs) /\ mode = "idle"
         /\ Evs[l].from = es - 1
         /\ Call(Evs[l].lim, Evs[l].fin)
         /\ UNCHANGED l
TStep == (Lex \/ Collect) /\ UNCHANGED l
TReturn == /\ mode = "run" /\ ev # <<>>
           /\ Evs[l].rc = "Success"
           /\ \A a \in Aspects : LT!Agrees(ev[1], Evs[l], a)
           /\ Evs[l].off = EvEnd(ev[1]) - 1
           /\ ReturnEvent
           /\ l' = l + 1
TOut == /\ OutOfBounds
        /\ Evs[l].rc = "BufferOutOfBounds"
        /\ Evs[l].off = es - 1
        /\ l' = l + 1
Accept ==
    /\ fin /\ mode = "idle" /\ l = Len(Evs) + 1 /\ Cases[k].end = "end"
    /\ PrintT(<<"ACCEPT", k>>)
    /\ l' = l + 1 /\ UNCHANGED <<vars, bufvars>>

TNext == TCall \/ TStep \/ TReturn \/ TOut \/ Accept
TSpec == TInit /\ [][TNext]_tvars
Explains == (mode = "run" /\ ev # <<>>) => ENABLED TReturn
=============================================================================
