------------------------------ MODULE MCLogSem ------------------------------
(***************************************************************************)
(* LogSem checked exhaustively: every input of bounded length over a small *)
(* alphabet, for every schema in SCHEMAS.  The invariants say declaratively*)
(* what the machine of LogSem computes step by step, and use a matching    *)
(* relation (Ends) that shares nothing with the derivatives of Regex.      *)
(***************************************************************************)
EXTENDS LogSem, Matching, Json, IOUtils

Raw == ndJsonDeserialize(IOEnv.SCHEMAS)
Compiled == [i \in DOMAIN Raw |-> Compile(Raw[i])]
\* a case is <<schema, input>>
MSchOf(c) == Compiled[c[1]]
MInpOf(c) == c[2]

VARIABLES lexed,  \* all tokens the lexer has cut
          out     \* all events that were finished
mvars == <<vars, lexed, out>>

Words(i) == LET al == {Raw[i].alphabet[j] : j \in DOMAIN Raw[i].alphabet}
            IN UNION {[1..n -> al] : n \in 0..Raw[i].n}

MInit == \E i \in DOMAIN Raw : \E w \in Words(i) : InitCase(<<i, w>>) /\ lexed = <<>> /\ out = <<>>

MRead == ReadChar /\ lexed' = lexed \o tq' /\ UNCHANGED out
MTake == TakeToken /\ UNCHANGED <<lexed, out>>
MReturn == /\ ev # <<>> /\ out' = Append(out, ev[1]) /\ ev' = <<>>
           /\ UNCHANGED <<k, lexvars, tq, toks, hts, fin, lexed>>
MNext == MRead \/ MTake \/ MReturn
MSpec == MInit /\ [][MNext]_mvars /\ WF_mvars(MNext)

-----------------------------------------------------------------------------
\* Ends of rule i's matches that start at position s (at the start of the input: with the virtual byte)
RuleEnds(i, s, atStart) ==
    LET rule == Sch.rules[i]
        isTs == rule.n \in {"firstTimestamp", "newLineTimestamp"}
        body(j) == IF rule.k = <<>> THEN {j}
                   ELSE Ends(Sch.T, rule.k[1][1], Inp, j, IF isTs THEN {} ELSE Sch.delims)
    IN IF atStart THEN (IF SOF \in rule.pre THEN body(s) ELSE {})
       ELSE IF s <= Len(Inp) /\ Inp[s] \in rule.pre THEN body(s + 1) ELSE {}

\* A match must be followed by a delimiter or the end; a newline by itself always counts
Bounded(i, s, e) == e > Len(Inp) \/ Inp[e] \in Sch.delims \/ Sch.rules[i].n = "newLine"
Cuts(s, atStart) == UNION {{<<e, i>> : e \in {x \in RuleEnds(i, s, atStart) : Bounded(i, s, x)}}
                           : i \in DOMAIN Sch.rules}

Best(cuts) == CHOOSE e \in {c[1] : c \in cuts} : \A c \in cuts : c[1] <= e
TokenAt(s, cuts) == LET e == Best(cuts) IN Token({c[2] : c \in {x \in cuts : x[1] = e}}, s, e)

\* The leftmost longest tokens from position m on
RECURSIVE Decl(_, _)
Decl(m_, atStart) ==
    LET first == Cuts(1, TRUE)
    IN IF atStart /\ first # {}
       THEN <<TokenAt(1, first)>> \o Decl(Best(first), FALSE)
       ELSE LET starts == {s \in m_..Len(Inp) : Inp[s] \in Sch.delims /\ Cuts(s, FALSE) # {}}
            IN IF starts = {}
               THEN Gap(m_, Len(Inp) + 1) \o <<EndToken(Len(Inp) + 1)>>
               ELSE LET s == CHOOSE x \in starts : \A y \in starts : x <= y
                        c == Cuts(s, FALSE)
                    IN Gap(m_, s) \o <<TokenAt(s, c)>> \o Decl(Best(c), FALSE)

\* C04, C05: the lexer cuts the leftmost longest matches, with all the rules that match
LeftmostLongest == fin => lexed = Decl(1, TRUE)

-----------------------------------------------------------------------------
(* Events, declaratively: where timestamps start and where newlines are     *)
TsStarts == {lexed[i].s : i \in {j \in DOMAIN lexed : lexed[j].ty[1] = "firstTimestamp"}}
            \cup {lexed[i].s + 1 : i \in {j \in DOMAIN lexed : lexed[j].ty[1] = "newLineTimestamp"}}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

\* The end of the event that starts at b; 0 if it is the last one
EndOf(b) ==
    LET later == IF b \in TsStarts THEN {x \in TsStarts : x > b}
                 ELSE {i + 1 : i \in {j \in b..Len(Inp) : Inp[j] = NL}}
    IN IF later = {} THEN 0 ELSE Min(later)
RECURSIVE Starts(_)
Starts(b) == IF EndOf(b) = 0 THEN <<b>> ELSE <<b>> \o Starts(EndOf(b))

EvStart(e, at) == IF e.toks = <<>> THEN at ELSE e.toks[1].s
\* C03
EventsAsDeclared ==
    fin /\ ev = <<>> =>
        LET ss == Starts(1) IN
        /\ Len(out) = Len(ss)
        /\ \A i \in DOMAIN out :
             LET stop == IF i = Len(ss) THEN Len(Inp) + 1 ELSE ss[i + 1] IN
             /\ EvText(out[i]) = SubSeq(Inp, ss[i], stop - 1)
             /\ out[i].hts = (ss[i] \in TsStarts)
             /\ out[i].last = (i = Len(ss))

\* C01: consecutive tokens, nothing left out
Contiguous ==
    LET RECURSIVE All(_)
        All(i) == IF i > Len(out) THEN <<>> ELSE out[i].toks \o All(i + 1)
        ts == All(1)
    IN /\ \A i \in DOMAIN ts : ts[i].s = (IF i = 1 THEN 1 ELSE ts[i - 1].e)
       /\ fin /\ ev = <<>> => (IF ts = <<>> THEN Inp = <<>> ELSE ts[Len(ts)].e = Len(Inp) + 1)

\* C09: no delimiter inside a variable, but for its first byte
NoDelimiterInside ==
    \A i \in DOMAIN lexed :
        lexed[i].ty[1] \notin {"firstTimestamp", "newLineTimestamp", "newLine", "$UncaughtString", "$end"} =>
            \A j \in lexed[i].s + 1..lexed[i].e - 1 : Inp[j] \notin Sch.delims

\* C10: what the views say, in terms of the event's text
Views ==
    ev # <<>> =>
        LET e == ev[1]  t == EvText(e) IN
        /\ EvMultiline(e) = (e.hts /\ \E i \in 1..Len(t) - 1 : t[i] = NL)
        /\ EvTimestamp(e) # <<>> => \E n \in 0..Len(t) : EvTimestamp(e)[1] = SubSeq(t, 1, n)
        /\ \A v \in EvVars(e) : Len(v.o) = Cardinality({i \in DOMAIN e.toks : e.toks[i].ty[1] = v.n})
        \* every token is an occurrence of exactly one variable
        /\ \A i \in DOMAIN e.toks : \E v \in EvVars(e) : v.n = e.toks[i].ty[1] /\ \E j \in DOMAIN v.o : v.o[j] = Text(e.toks[i])

\* C11: the logtype with names taken out again, and the text with the variables taken out, agree
Skeleton(e) ==
    LET RECURSIVE Go(_)
        Go(i) == IF i > Len(e.toks) THEN <<>>
                 ELSE LET t == e.toks[i] IN
                      (IF t.ty = Uncaught THEN Text(t)
                       ELSE IF t.ty[1] # "newLine" /\ t.s < t.e /\ Inp[t.s] \in Sch.delims THEN <<Inp[t.s]>> ELSE <<>>)
                      \o Go(i + 1)
    IN Go(IF e.hts THEN 2 ELSE 1)
RECURSIVE Strip(_, _, _)
Strip(e, i, lt) ==   \* remove the names, one after the other, from the front
    IF i > Len(e.toks) THEN lt
    ELSE LET t == e.toks[i]
             stat == IF t.ty = Uncaught THEN Text(t)
                     ELSE IF t.ty[1] # "newLine" /\ t.s < t.e /\ Inp[t.s] \in Sch.delims THEN <<Inp[t.s]>> ELSE <<>>
             name == IF t.ty = Uncaught THEN <<>> ELSE <<60>> \o Sch.nb[t.ty[1]] \o <<62>>
             n == Len(stat) + Len(name)
         IN IF SubSeq(lt, 1, n) = stat \o name
            THEN stat \o Strip(e, i + 1, SubSeq(lt, n + 1, Len(lt)))
            ELSE <<-1>>
Logtypes == ev # <<>> => Strip(ev[1], IF ev[1].hts THEN 2 ELSE 1, EvLogtype(ev[1])) = Skeleton(ev[1])

\* LogSem is a Stream
Delivered == LET RECURSIVE Sum(_)
                 Sum(i) == IF i > Len(out) THEN 0 ELSE Len(EvText(out[i])) + Sum(i + 1)
             IN Sum(1)
AbsFin == fin /\ ev = <<>>
Str == INSTANCE Stream WITH total <- Len(k[2]), lines <- {i \in DOMAIN k[2] : k[2][i] = 10}, pos <- Delivered, fin <- AbsFin, Totals <- Nat
RefinesStream == Delivered = 0 /\ ~AbsFin /\ [][Str!Next]_<<Len(k[2]), Delivered, AbsFin>>
Terminates == <>(fin /\ ev = <<>>)
=============================================================================
