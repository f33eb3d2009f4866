----------------------------- MODULE AloneTrace -----------------------------
(***************************************************************************)
(* Texts that real lexers scanned, one after the other, against Alone.     *)
(* CASES: T, roots, ids, delims, end, runs <<[inp, wild, toks <<[ty, s]>>, *)
(* end]>>.  wild: "-" for a scan, else the wildcard of scan_with_wildcard; *)
(* end: "end" if the end token followed, "more" if it was not asked for.   *)
(***************************************************************************)
EXTENDS Alone, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Built == [i \in DOMAIN Cases |->
            [T |-> Cases[i].T,
             delims |-> IF Cases[i].delims = <<>> THEN {}
                        ELSE {Cases[i].delims[j] : j \in DOMAIN Cases[i].delims} \cup {SOF},
             rules |-> [j \in DOMAIN Cases[i].roots |->
                          [n |-> Cases[i].ids[j], pre |-> {}, k |-> Cont(Cases[i].roots[j])]]]]

\* k is <<case, run>>
TLexerOf(c) == Built[c[1]]
TTextOf(c) == Cases[c[1]].runs[c[2]].inp

VARIABLE l   \* the next token of the run
tvars == <<lvars, l>>
Run == Cases[k[1]].runs[k[2]]
\* the id of uncaught strings
Name(ty) == IF ty = Uncaught THEN <<"1">> ELSE ty
\* each id once
RECURSIVE Once(_, _)
Once(w, acc) ==
    IF w = <<>> THEN acc
    ELSE Once(Tail(w), IF \E i \in DOMAIN acc : acc[i] = Head(w) THEN acc ELSE Append(acc, Head(w)))
Same(ty, want) == Once(ty, <<>>) = Name(want)

TInit == \E c \in DOMAIN Cases : LInit(<<c, 1>>) /\ l = 1 /\ Cases[c].end = "end"

Lex == Run.wild = "-" /\ (l <= Len(Run.toks) \/ Run.end = "end") /\ LRead /\ UNCHANGED l
Take ==
    /\ tq # <<>> /\ l <= Len(Run.toks)
    /\ Run.toks[l].s = Slice(Head(tq)) /\ Same(Run.toks[l].ty, Head(tq).ty)
    /\ l' = l + 1 /\ tq' = Tail(tq)
    /\ UNCHANGED <<k, p, st, q, m, mt, fin>>
Judge ==
    /\ Run.wild # "-" /\ l = 1 /\ Len(Run.toks) = 1
    /\ Run.toks[1].s = Txt /\ Same(Run.toks[1].ty, Judged(Txt, Run.wild))
    /\ l' = 2 /\ fin' = TRUE /\ UNCHANGED <<k, p, st, q, m, mt, tq>>

Over ==
    /\ l = Len(Run.toks) + 1
    /\ IF Run.wild = "-" /\ Run.end = "end" THEN fin /\ tq = <<>>
       ELSE Run.end = "more" /\ (fin \/ Run.wild = "-")
\* lexer and buffer are reset
NextText ==
    /\ Over /\ k[2] < Len(Cases[k[1]].runs)
    /\ k' = <<k[1], k[2] + 1>> /\ l' = 1
    /\ p' = 1 /\ q' = 1 /\ m' = 1 /\ mt' = <<>> /\ st' = Start /\ tq' = <<>> /\ fin' = FALSE
Accept ==
    /\ Over /\ k[2] = Len(Cases[k[1]].runs)
    /\ PrintT(<<"ACCEPT", k[1]>>)
    /\ l' = l + 1 /\ UNCHANGED lvars

TNext == Lex \/ Take \/ Judge \/ NextText \/ Accept
TSpec == TInit /\ [][TNext]_tvars

Explains == (tq # <<>> => ENABLED Take) /\ (Run.wild # "-" /\ l = 1 => ENABLED Judge)
=============================================================================
