------------------------------ MODULE TypeTrace -----------------------------
(***************************************************************************)
(* Trace validation of token types alone: whatever text a token has, its   *)
(* types are the names of the rules that match this text, in schema order. *)
(* CASES: sc, toks |-> <<[s, ty, at, nl]>>, end: at = "sof" if the token   *)
(* starts the input, "nl" if it starts an event right after a newline that *)
(* was given to the event before, "" otherwise.                            *)
(***************************************************************************)
EXTENDS LogSem, Json, IOUtils

Raw == ndJsonDeserialize(IOEnv.SCHEMAS)
Cases == ndJsonDeserialize(IOEnv.CASES)
Compiled == [i \in DOMAIN Raw |-> Compile(Raw[i])]
TSchOf(c) == Compiled[Cases[c].sc]
TInpOf(c) == <<>>

RECURSIVE StAfter(_, _, _, _)
StAfter(sch, s, w, i) == IF i > Len(w) THEN s ELSE StAfter(sch, Delta(sch, s, w[i]), w, i + 1)

\* Names of the rules that match w, in schema order
NamesOf(sch, w) == NamesInOrder(sch.rules, Accepted(sch, StAfter(sch, Start, w, 1)))

RECURSIVE Dedup(_, _, _)
Dedup(s, i, acc) ==
    IF i > Len(s) THEN acc
    ELSE Dedup(s, i + 1, IF \E j \in DOMAIN acc : acc[j] = s[i] THEN acc ELSE Append(acc, s[i]))

\* A token that is not static text is typed by what it matches
Typed(sch, t) ==
    \/ t.ty[1] = "$UncaughtString"
    \/ t.ty[1] = "$end" /\ t.s = <<>>
    \/ LET ty == Dedup(t.ty, 1, <<>>) IN
       \/ t.at = "sof" /\ ty = NamesOf(sch, <<SOF>> \o t.s)
       \/ t.at = "nl" /\ ty = NamesOf(sch, <<NL>> \o t.s)
       \/ ty = NamesOf(sch, t.s)

VARIABLE l
tvars == <<vars, l>>
TInit == \E c \in DOMAIN Cases : InitCase(c) /\ l = 1
Step == /\ l <= Len(Cases[k].toks)
        /\ Typed(Sch, Cases[k].toks[l])
        /\ l' = l + 1 /\ UNCHANGED vars
Accept == /\ l = Len(Cases[k].toks) + 1 /\ Cases[k].end = "end"
          /\ PrintT(<<"ACCEPT", k>>)
          /\ l' = l + 1 /\ UNCHANGED vars
TNext == Step \/ Accept
TSpec == TInit /\ [][TNext]_tvars
Explains == l <= Len(Cases[k].toks) => ENABLED Step
=============================================================================
