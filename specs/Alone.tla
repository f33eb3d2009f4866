------------------------------- MODULE Alone -------------------------------
(***************************************************************************)
(* A lexer that is used without a parser: rules and perhaps delimiters     *)
(* were added to it, and it scans one text after another.  A lexer is      *)
(* [T, rules |-> <<[n, pre |-> {}, k]>>, delims (a set)].                  *)
(***************************************************************************)
EXTENDS Rules, TLC

CONSTANTS LexerOf(_), TextOf(_)

VARIABLES
    k,      \* the case
    p,      \* next byte to read
    st,     \* what the characters since q may still become
    q,      \* where the candidate token starts
    m,      \* end of the last token
    mt,     \* longest match of the candidate so far: <<>> or <<[is, s, e]>>
    tq,     \* tokens that are cut but not yet asked for
    fin     \* the end token is cut
lvars == <<k, p, st, q, m, mt, tq, fin>>

Lx == LexerOf(k)
Txt == TextOf(k)
D(s, c) == DRules(Lx.T, Lx.rules, s, c, {})
Acc(s) == AcceptingRules(Lx.T, Lx.rules, s)
Slice(t) == SubSeq(Txt, t.s, t.e - 1)

LInit(c) == k = c /\ p = 1 /\ q = 1 /\ m = 1 /\ mt = <<>> /\ st = Start /\ tq = <<>> /\ fin = FALSE

Tok(is, s, e) == [ty |-> NamesInOrder(Lx.rules, is), s |-> s, e |-> e]
Rest(s, e) == IF s = e THEN <<>> ELSE << [ty |-> Uncaught, s |-> s, e |-> e] >>

\* After a failed candidate only a delimiter that starts some rule may start the next one
Next1(i) ==
    LET RECURSIVE Go(_)
        Go(j) == IF j > Len(Txt) \/ (Txt[j] \in Lx.delims /\ D(Start, Txt[j]) # {}) THEN j ELSE Go(j + 1)
    IN Go(i)

\* One character of the text, or its end
LRead ==
    /\ tq = <<>> /\ ~fin
    /\ LET eof == p > Len(Txt)
           c == IF eof THEN -1 ELSE Txt[p]
           may == eof \/ Lx.delims = {} \/ c \in Lx.delims
           acc == IF may THEN Acc(st) ELSE {}
           mt1 == IF acc # {} THEN << [is |-> acc, s |-> q, e |-> p] >> ELSE mt
           \* with delimiters, a newline outside of a match is a token of its own
           nl == c = NL /\ mt1 = <<>> /\ Lx.delims # {}
           st2 == IF eof THEN {} ELSE IF nl THEN D(Start, NL) ELSE D(st, c)
           q2 == IF nl THEN p ELSE q
           mt2 == IF nl THEN << [is |-> Acc(st2), s |-> p, e |-> p + 1] >> ELSE mt1
       IN IF st2 # {}
          THEN /\ p' = p + 1 /\ st' = st2 /\ q' = q2 /\ mt' = mt2
               /\ UNCHANGED <<m, tq, fin>>
          ELSE IF mt2 # <<>>
          THEN /\ tq' = Rest(m, mt2[1].s) \o << Tok(mt2[1].is, mt2[1].s, mt2[1].e) >>
               /\ p' = mt2[1].e /\ q' = mt2[1].e /\ m' = mt2[1].e
               /\ st' = Start /\ mt' = <<>> /\ UNCHANGED fin
          ELSE IF eof /\ q = p
          THEN /\ tq' = Rest(m, q) /\ fin' = TRUE /\ m' = q
               /\ UNCHANGED <<p, st, q, mt>>
          ELSE /\ p' = Next1(p) /\ q' = p' /\ st' = Start
               /\ UNCHANGED <<m, mt, tq, fin>>
    /\ UNCHANGED k

-----------------------------------------------------------------------------
(* Words that end in a wildcard                                             *)

\* One byte of each class that the rules do not tell apart
Classes ==
    ({0, 255} \cup Boundaries(Lx.T) \cup UNION {{d, d + 1} : d \in Lx.delims}) \cap 0..255

RECURSIVE After(_, _)
After(s, w) == IF w = <<>> \/ s = {} THEN s ELSE After(D(s, Head(w)), Tail(w))

\* Everything that can be reached from the states in `todo` without a delimiter accepts
RECURSIVE Closed(_, _)
Closed(todo, done) ==
    IF todo = {} THEN TRUE
    ELSE LET s == CHOOSE x \in todo : TRUE
         IN /\ Acc(s) # {}
            /\ Closed((todo \cup {D(s, c) : c \in Classes \ Lx.delims}) \ (done \cup {s}), done \cup {s})

\* What a word is, whatever the wildcard behind it stands for
Judged(w, wild) ==
    LET s == After(Start, w)
    IN IF /\ Acc(s) # {}
          /\ wild = "?" => \A c \in Classes : Acc(D(s, c)) # {}
          /\ wild = "*" => Closed({s}, {})
       THEN NamesInOrder(Lx.rules, Acc(s))
       ELSE Uncaught
=============================================================================
