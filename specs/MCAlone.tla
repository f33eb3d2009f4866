------------------------------ MODULE MCAlone ------------------------------
(***************************************************************************)
(* Alone checked exhaustively: every text of bounded length over a small   *)
(* alphabet for every lexer in LEXERS, against declarative definitions     *)
(* that use the matching relation of Matching instead of derivatives.      *)
(***************************************************************************)
EXTENDS Alone, Matching, Json, IOUtils

CONSTANTS Forget   \* TRUE: a mistake, the longest match so far is not kept

Raw == ndJsonDeserialize(IOEnv.LEXERS)
Built == [i \in DOMAIN Raw |->
            [T |-> Raw[i].T, delims |-> {Raw[i].delims[j] : j \in DOMAIN Raw[i].delims},
             rules |-> [j \in DOMAIN Raw[i].roots |->
                          [n |-> Raw[i].ids[j], pre |-> {}, k |-> Cont(Raw[i].roots[j])]]]]
Al(i) == {Raw[i].alphabet[j] : j \in DOMAIN Raw[i].alphabet}
Texts(S, n) == UNION {[1..j -> S] : j \in 0..n}

MLexerOf(c) == Built[c[1]]
MTextOf(c) == c[2]

VARIABLE out   \* the tokens that were cut
mvars == <<lvars, out>>

MInit == \E i \in DOMAIN Raw : \E w \in Texts(Al(i), Raw[i].n) : LInit(<<i, w>>) /\ out = <<>>
MRead == LRead /\ UNCHANGED out
MWrong == Forget /\ p <= Len(Txt) /\ tq = <<>> /\ ~fin /\ mt # <<>> /\ mt' = <<>>
          /\ UNCHANGED <<k, p, st, q, m, tq, fin, out>>
MTake == tq # <<>> /\ out' = Append(out, Head(tq)) /\ tq' = Tail(tq) /\ UNCHANGED <<k, p, st, q, m, mt, fin>>
MNext == MRead \/ MTake \/ MWrong
MSpec == MInit /\ [][MNext]_mvars /\ WF_mvars(MNext)

-----------------------------------------------------------------------------
RuleEnds(w, i, s) == Ends(Lx.T, Lx.rules[i].k[1][1], w, s, {})
\* With delimiters, one of them or the end must follow, except on a newline by itself
Bounded(s, e) == Lx.delims = {} \/ e > Len(Txt) \/ Txt[e] \in Lx.delims \/ (e = s + 1 /\ Txt[s] = NL)
Cuts(s) == UNION {{<<e, i>> : e \in {x \in RuleEnds(Txt, i, s) : Bounded(s, x)}} : i \in DOMAIN Lx.rules}
Best(cuts) == CHOOSE e \in {c[1] : c \in cuts} : \A c \in cuts : c[1] <= e
TokenAt(s, cuts) == LET e == Best(cuts) IN Tok({c[2] : c \in {x \in cuts : x[1] = e}}, s, e)

\* Tokens from position b on; `at`: a token may start at b even if no delimiter is there
RECURSIVE Decl(_)
Decl(b) ==
    LET starts == {s \in b..Len(Txt) : (s = b \/ Txt[s] \in Lx.delims) /\ Cuts(s) # {}}
    IN IF starts = {} THEN Rest(b, Len(Txt) + 1)
       ELSE LET s == CHOOSE x \in starts : \A y \in starts : x <= y
                c == Cuts(s)
            IN Rest(b, s) \o <<TokenAt(s, c)>> \o Decl(Best(c))

Over == fin /\ tq = <<>>
LongestFirst == Over => out = Decl(1)
Contiguous == Over => /\ \A i \in DOMAIN out : out[i].s = (IF i = 1 THEN 1 ELSE out[i - 1].e) /\ out[i].s < out[i].e
                      /\ (out = <<>> => Txt = <<>>) /\ (out # <<>> => out[Len(out)].e = Len(Txt) + 1)

\* Without delimiters: either everything is tokens, or what remains after them has no prefix that matches
Prefixes ==
    Over /\ Lx.delims = {} =>
        \A i \in DOMAIN out : out[i].ty = Uncaught => i = Len(out) /\ Cuts(out[i].s) = {}

\* Words
Whole(w) == {i \in DOMAIN Lx.rules : Len(w) + 1 \in RuleEnds(w, i, 1)}
IsWord == \A i \in DOMAIN Txt : Txt[i] \notin Lx.delims
Words == Over /\ IsWord /\ Lx.delims # {} /\ Txt # <<>> =>
            out = IF Whole(Txt) = {} THEN Rest(1, Len(Txt) + 1) ELSE <<Tok(Whole(Txt), 1, Len(Txt) + 1)>>

\* Wildcards: what the word may become
More == Raw[k[1]].more
Wilds ==
    p = 1 /\ tq = <<>> /\ ~fin /\ out = <<>> /\ Txt # <<>> =>
        LET star == Judged(Txt, "*")  any == Judged(Txt, "?")
            variable == Whole(Txt) # {}
        IN /\ (star # Uncaught) = \A x \in Texts(Al(k[1]) \ Lx.delims, More) : Whole(Txt \o x) # {}
           /\ (any # Uncaught) = (variable /\ \A c \in Classes : Whole(Append(Txt, c)) # {})
           /\ star # Uncaught => star = NamesInOrder(Lx.rules, Whole(Txt))
           /\ any # Uncaught => any = NamesInOrder(Lx.rules, Whole(Txt))

Terminates == <>Over
=============================================================================
