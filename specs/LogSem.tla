------------------------------- MODULE LogSem -------------------------------
(***************************************************************************)
(* What log-surgeon's parser promises, free of buffers: a stream of bytes  *)
(* is cut into tokens by the schema's rules, and the tokens into events.   *)
(*                                                                         *)
(* The machine reads one byte per ReadChar step.  A case id `k` is fixed   *)
(* by the initial state; SchOf(k) is its schema and InpOf(k) its input.    *)
(***************************************************************************)
EXTENDS Rules, TLC

CONSTANTS SchOf(_),  \* [delims, T, rules, nodot]: see Compile
          InpOf(_)   \* sequence of bytes

-----------------------------------------------------------------------------
VARIABLES
    k,      \* the case
    p,      \* next byte to read
    st,     \* what the characters since q may still become
    q,      \* where the candidate token starts
    m,      \* end of the last token: everything before is tokenized
    mt,     \* longest match of the candidate so far: <<>> or <<[is, s, e]>>
    sof,    \* the candidate is the one at the very start of the input
    tq,     \* tokens that are cut but not yet part of an event
    toks,   \* tokens of the current event
    hts,    \* the current event starts with a timestamp
    ev,     \* a finished event: <<>> or <<[toks, hts, last]>>
    fin     \* the last event is finished

lexvars == <<p, st, q, m, mt, sof>>
evvars == <<toks, hts, ev, fin>>
vars == <<k, p, st, q, m, mt, sof, tq, toks, hts, ev, fin>>

Sch == SchOf(k)
Inp == InpOf(k)
Text(t) == SubSeq(Inp, t.s, t.e - 1)

InitCase(c) ==
    /\ k = c
    /\ p = 1 /\ q = 1 /\ m = 1 /\ mt = <<>> /\ sof = TRUE
    /\ st = Delta(SchOf(c), Start, SOF)
    /\ tq = <<>> /\ toks = <<>> /\ hts = FALSE /\ ev = <<>> /\ fin = FALSE

\* Leave everything behind and parse case c from its beginning
Restart(c) ==
    /\ k' = c
    /\ p' = 1 /\ q' = 1 /\ m' = 1 /\ mt' = <<>> /\ sof' = TRUE
    /\ st' = Delta(SchOf(c), Start, SOF)
    /\ tq' = <<>> /\ toks' = <<>> /\ hts' = FALSE /\ ev' = <<>> /\ fin' = FALSE

Token(is, s, e) == [ty |-> NamesInOrder(Sch.rules, is), s |-> s, e |-> e]
Gap(s, e) == IF s = e THEN <<>> ELSE << [ty |-> Uncaught, s |-> s, e |-> e] >>
EndToken(e) == [ty |-> <<"$end">>, s |-> e, e |-> e]

\* Where the next token may start after a failed candidate: a delimiter, or the end
NextStart(i) ==
    LET RECURSIVE Go(_)
        Go(j) == IF j > Len(Inp) \/ (Inp[j] \in Sch.delims /\ Inp[j] \in Sch.first) THEN j ELSE Go(j + 1)
    IN Go(i)

ReadChar ==
    /\ tq = <<>> /\ ev = <<>> /\ ~fin
    /\ LET eof == p > Len(Inp)
           c == IF eof THEN -1 ELSE Inp[p]
           acc == IF eof \/ c \in Sch.delims THEN Accepted(Sch, st) ELSE {}
           mt1 == IF acc # {} THEN << [is |-> acc, s |-> q, e |-> p] >> ELSE mt
           \* a newline that is not inside a match ends whatever came before it
           nl == c = NL /\ mt1 = <<>>
           st2 == IF eof THEN {} ELSE IF nl THEN Delta(Sch, Start, NL) ELSE Delta(Sch, st, c)
           q2 == IF nl THEN p ELSE q
           mt2 == IF nl THEN << [is |-> {1}, s |-> p, e |-> p + 1] >> ELSE mt1
       IN IF st2 # {}
          THEN /\ p' = p + 1 /\ st' = st2 /\ q' = q2 /\ mt' = mt2
               /\ UNCHANGED <<m, sof, tq>>
          ELSE IF mt2 # <<>>
          THEN /\ tq' = Gap(m, mt2[1].s) \o << Token(mt2[1].is, mt2[1].s, mt2[1].e) >>
               /\ p' = mt2[1].e /\ q' = mt2[1].e /\ m' = mt2[1].e
               /\ st' = Start /\ mt' = <<>> /\ sof' = FALSE
          ELSE IF eof /\ q = p
          THEN /\ tq' = Gap(m, q) \o << EndToken(q) >>
               /\ m' = q
               /\ UNCHANGED <<p, st, q, mt, sof>>
          ELSE IF sof
          THEN /\ p' = q /\ st' = Start /\ sof' = FALSE
               /\ UNCHANGED <<q, m, mt, tq>>
          ELSE /\ p' = NextStart(p) /\ q' = p' /\ st' = Start
               /\ UNCHANGED <<m, mt, sof, tq>>
    /\ UNCHANGED <<k, toks, hts, ev, fin>>

-----------------------------------------------------------------------------
(* Events *)
IsTs(ty) == ty[1] \in {"firstTimestamp", "newLineTimestamp"}

\* End the event with tokens ts; the next one starts with the tokens in `next`
Finish(ts, h, last, next) ==
    /\ ev' = << [toks |-> ts, hts |-> h, last |-> last] >>
    /\ fin' = last
    /\ toks' = next
    /\ hts' = (next # <<>> /\ IsTs(next[1].ty))

\* A token that starts with a newline is cut after it: the rest belongs to the next event
NlPart(t) == [ty |-> Uncaught, s |-> t.s, e |-> t.s + 1]
RestPart(t) == [t EXCEPT !.s = t.s + 1]

TakeToken ==
    /\ tq # <<>> /\ ev = <<>>
    /\ tq' = Tail(tq)
    /\ LET t == Head(tq) IN
       CASE t.ty[1] = "$end" -> Finish(toks, hts, TRUE, <<>>)
         [] t.ty[1] = "newLine" /\ ~hts -> Finish(Append(toks, t), hts, FALSE, <<>>)
         [] /\ toks = <<>> /\ t.ty[1] \notin {"newLine", "firstTimestamp"}
            /\ t.s < t.e /\ Inp[t.s] = NL -> Finish(<<NlPart(t)>>, FALSE, FALSE, <<RestPart(t)>>)
         [] toks # <<>> /\ hts /\ t.ty[1] = "newLineTimestamp" ->
                Finish(Append(toks, NlPart(t)), hts, FALSE, <<RestPart(t)>>)
         [] toks # <<>> /\ ~hts /\ t.ty[1] # "newLine" /\ t.s < t.e /\ Inp[t.s] = NL ->
                Finish(Append(toks, NlPart(t)), hts, FALSE, <<RestPart(t)>>)
         [] OTHER -> /\ toks' = Append(toks, t)
                     /\ hts' = IF toks = <<>> THEN IsTs(t.ty) ELSE hts
                     /\ UNCHANGED <<ev, fin>>
    /\ UNCHANGED <<k, lexvars>>

-----------------------------------------------------------------------------
(* What can be asked of an event *)
\* How many newlines the input has before position e
Lines(e) == Len(SelectSeq(SubSeq(Inp, 1, e - 1), LAMBDA c : c = NL))
EvText(e) == IF e.toks = <<>> THEN <<>> ELSE SubSeq(Inp, e.toks[1].s, e.toks[Len(e.toks)].e - 1)
EvTimestamp(e) == IF e.hts THEN << Text(e.toks[1]) >> ELSE <<>>

EvMultiline(e) ==
    e.hts /\ \E i \in 2..Len(e.toks) :
                /\ e.toks[i].s < e.toks[i].e
                /\ Inp[e.toks[i].s] = NL
                /\ (e.toks[i].e - e.toks[i].s > 1 \/ i < Len(e.toks))

\* name -> texts of the tokens of that name, in order
EvVars(e) ==
    LET names == {e.toks[i].ty[1] : i \in DOMAIN e.toks}
        RECURSIVE Occ(_, _)
        Occ(n, i) == IF i > Len(e.toks) THEN <<>>
                     ELSE (IF e.toks[i].ty[1] = n THEN <<Text(e.toks[i])>> ELSE <<>>) \o Occ(n, i + 1)
    IN {[n |-> n, o |-> Occ(n, 1)] : n \in names}

\* Static text, with <name> in the place of each variable but for its delimiter; as bytes
EvLogtypeToken(t) ==
    IF t.ty = Uncaught THEN Text(t)
    ELSE (IF t.ty[1] # "newLine" /\ t.s < t.e /\ Inp[t.s] \in Sch.delims THEN <<Inp[t.s]>> ELSE <<>>)
         \o <<60>> \o (IF t.ty[1] \in DOMAIN Sch.nb THEN Sch.nb[t.ty[1]] ELSE <<0>>) \o <<62>>
RECURSIVE EvLogtypeFrom(_, _)
EvLogtypeFrom(e, i) == IF i > Len(e.toks) THEN <<>> ELSE EvLogtypeToken(e.toks[i]) \o EvLogtypeFrom(e, i + 1)
EvLogtype(e) == EvLogtypeFrom(e, IF e.hts THEN 2 ELSE 1)
=============================================================================
