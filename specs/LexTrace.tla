------------------------------ MODULE LexTrace ------------------------------
(***************************************************************************)
(* Trace validation of tokens alone: the texts of the tokens of all events *)
(* of a run, one after the other, must be those that LogSem's lexer cuts,  *)
(* wherever the events were cut.  A token that starts with a newline may   *)
(* have been cut after it, and the end token is not part of the trace.     *)
(* CASES: sc, inp, toks (texts), end.                                      *)
(***************************************************************************)
EXTENDS LogSem, Json, IOUtils

Raw == ndJsonDeserialize(IOEnv.SCHEMAS)
Cases == ndJsonDeserialize(IOEnv.CASES)
Compiled == [i \in DOMAIN Raw |-> Compile(Raw[i])]

TSchOf(c) == Compiled[Cases[c].sc]
TInpOf(c) == Cases[c].inp

VARIABLE l
tvars == <<vars, l>>
Toks == Cases[k].toks

TInit == \E c \in DOMAIN Cases : InitCase(c) /\ l = 1

Lex == ReadChar /\ UNCHANGED l

Whole(t) == Toks[l] = Text(t) /\ l' = l + 1
Cut(t) ==
    /\ t.e - t.s > 1 /\ Inp[t.s] = NL /\ l < Len(Toks)
    /\ Toks[l] = <<NL>> /\ Toks[l + 1] = SubSeq(Inp, t.s + 1, t.e - 1)
    /\ l' = l + 2

Take ==
    /\ tq # <<>>
    /\ LET t == Head(tq) IN
       IF t.ty[1] = "$end"
       THEN \* the end token may show up as an empty token
            /\ l' = IF l <= Len(Toks) /\ Toks[l] = <<>> THEN l + 1 ELSE l
            /\ fin' = TRUE
       ELSE l <= Len(Toks) /\ (Whole(t) \/ Cut(t)) /\ UNCHANGED fin
    /\ tq' = Tail(tq)
    /\ UNCHANGED <<k, lexvars, toks, hts, ev>>

Accept ==
    /\ fin /\ l = Len(Toks) + 1 /\ Cases[k].end = "end"
    /\ PrintT(<<"ACCEPT", k>>)
    /\ l' = l + 1
    /\ UNCHANGED vars

TNext == Lex \/ Take \/ Accept
TSpec == TInit /\ [][TNext]_tvars

Explains == tq # <<>> => ENABLED Take
=============================================================================
