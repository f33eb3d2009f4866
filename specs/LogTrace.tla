------------------------------ MODULE LogTrace ------------------------------
(***************************************************************************)
(* Trace validation: the events that the real parser returned for an input *)
(* must be those of LogSem, in the aspects under scrutiny.                 *)
(*                                                                         *)
(* SCHEMAS: one JSON object per schema (see LogSem!Compile; `nb` maps a    *)
(*          name to its bytes).                                            *)
(* CASES:   one JSON object per run of the real parser: sc (schema), inp   *)
(*          (input bytes), evs (what each parse call returned), end.   *)
(* A case is accepted iff its id is printed.                               *)
(***************************************************************************)
EXTENDS LogSem, Json, IOUtils

CONSTANT Aspects

Raw == ndJsonDeserialize(IOEnv.SCHEMAS)
Cases == ndJsonDeserialize(IOEnv.CASES)
Compiled == [i \in DOMAIN Raw |-> Compile(Raw[i])]

TSchOf(c) == Compiled[Cases[c].sc]
TInpOf(c) == Cases[c].inp

VARIABLE l   \* next line of the trace

Evs == Cases[k].evs
tvars == <<vars, l>>

RECURSIVE Dedup(_, _, _)
Dedup(s, i, acc) ==
    IF i > Len(s) THEN acc
    ELSE Dedup(s, i + 1, IF \E j \in DOMAIN acc : acc[j] = s[i] THEN acc ELSE Append(acc, s[i]))

Agrees(e, o, a) ==
    CASE a = "toks" -> /\ Len(o.toks) = Len(e.toks)
                       /\ \A i \in DOMAIN e.toks : o.toks[i].s = Text(e.toks[i])
      [] a = "type1" -> /\ Len(o.toks) = Len(e.toks)
                        /\ \A i \in DOMAIN e.toks : o.toks[i].ty[1] = e.toks[i].ty[1]
      [] a = "types" -> /\ Len(o.toks) = Len(e.toks)
                        /\ \A i \in DOMAIN e.toks : Dedup(o.toks[i].ty, 1, <<>>) = e.toks[i].ty
      [] a = "typeset" -> /\ Len(o.toks) = Len(e.toks)
                          /\ \A i \in DOMAIN e.toks :
                               {o.toks[i].ty[j] : j \in DOMAIN o.toks[i].ty} = {e.toks[i].ty[j] : j \in DOMAIN e.toks[i].ty}
      \* a token carries the line it ends on; the newline before a timestamp or a variable that
      \* starts the next event may count as part of that token
      [] a = "line" -> /\ Len(o.toks) = Len(e.toks)
                       /\ \A i \in DOMAIN e.toks :
                            LET t == e.toks[i] IN
                            \/ o.toks[i].ln = Lines(t.e)
                            \/ /\ i = Len(e.toks) /\ ~e.last /\ t.ty = Uncaught /\ Text(t) = <<NL>>
                               /\ toks # <<>> /\ o.toks[i].ln = Lines(toks[1].e)
      [] a = "str" -> o.str = EvText(e)
      [] a = "same" -> o.same
      [] a = "ts" -> o.ts = EvTimestamp(e)
      [] a = "lt" -> o.lt = EvLogtype(e)
      [] a = "ml" -> o.ml = EvMultiline(e)
      [] a = "vars" -> /\ {[n |-> o.vars[i].n, o |-> o.vars[i].o] : i \in DOMAIN o.vars} = EvVars(e)
                       /\ \A i, j \in DOMAIN o.vars : o.vars[i].n = o.vars[j].n => i = j
      [] a = "done" -> o.done = e.last

Matches(e, o) == o.rc = "Success" /\ \A a \in Aspects : Agrees(e, o, a)

TInit == \E c \in DOMAIN Cases : InitCase(c) /\ l = 1

\* The parser is silent while it lexes
Silent == (ReadChar \/ TakeToken) /\ UNCHANGED l

\* A parse call returns an event
Return ==
    /\ ev # <<>> /\ l <= Len(Evs)
    /\ Matches(ev[1], Evs[l])
    /\ ev' = <<>> /\ l' = l + 1
    /\ UNCHANGED <<k, lexvars, tq, toks, hts, fin>>

Accept ==
    /\ fin /\ ev = <<>> /\ l = Len(Evs) + 1 /\ Cases[k].end = "end"
    /\ PrintT(<<"ACCEPT", k>>)
    /\ l' = l + 1
    /\ UNCHANGED vars

TNext == Silent \/ Return \/ Accept
TSpec == TInit /\ [][TNext]_tvars

\* Only checked for a single rejected case, to show where it parts from the specification
Explains == ~(ev # <<>> /\ (l > Len(Evs) \/ ~Matches(ev[1], Evs[l])))
=============================================================================
