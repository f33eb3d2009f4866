------------------------------ MODULE MCLines -------------------------------
(***************************************************************************)
(* How line numbers are counted: the lexer keeps a count of the newlines   *)
(* it has read, notes it with each match, and goes back to the noted count *)
(* when it goes back to the end of a match.  For every input the lines of  *)
(* the tokens are those of LogSem!Lines.                                   *)
(***************************************************************************)
EXTENDS LogSem, Json, IOUtils

CONSTANT Restore  \* FALSE: the count is not taken back with the position (must fail)

Raw == ndJsonDeserialize(IOEnv.SCHEMAS)
Compiled == [i \in DOMAIN Raw |-> Compile(Raw[i])]
MSchOf(c) == Compiled[c[1]]
MInpOf(c) == c[2]

VARIABLES line,   \* newlines read
          mline,  \* at the end of the longest match so far
          lline,  \* at the end of the last token
          got     \* the tokens of the last cut, with their lines
lvars == <<line, mline, lline, got>>
mvars == <<vars, lvars>>

Words(i) == LET al == {Raw[i].alphabet[j] : j \in DOMAIN Raw[i].alphabet}
            IN UNION {[1..n -> al] : n \in 0..Raw[i].n}
MInit == /\ \E i \in DOMAIN Raw : \E w \in Words(i) : InitCase(<<i, w>>)
         /\ line = 0 /\ mline = 0 /\ lline = 0 /\ got = <<>>

MRead ==
    /\ ReadChar
    /\ LET eof == p > Len(Inp)
           c == IF eof THEN -1 ELSE Inp[p]
           acc == IF eof \/ c \in Sch.delims THEN Accepted(Sch, st) ELSE {}
           read == IF c = NL THEN line + 1 ELSE line
           matched == IF acc # {} THEN line
                      ELSE IF c = NL /\ mt = <<>> THEN read ELSE mline
       IN IF tq' = <<>>
          THEN line' = read /\ mline' = matched /\ UNCHANGED <<lline, got>>
          ELSE LET isEnd == tq'[Len(tq')].ty[1] = "$end"
                   at == IF isEnd THEN line ELSE matched
               IN /\ got' = [i \in DOMAIN tq' |-> [e |-> tq'[i].e, ln |-> IF i = Len(tq') THEN at ELSE lline]]
                  /\ line' = (IF Restore THEN at ELSE read) /\ mline' = at /\ lline' = at
MTake == TakeToken /\ UNCHANGED lvars
MReturn == /\ ev # <<>> /\ ev' = <<>>
           /\ UNCHANGED <<k, lexvars, tq, toks, hts, fin, lvars>>
MSpec == MInit /\ [][MRead \/ MTake \/ MReturn]_mvars

\* (static text holds no newline, since a newline is a delimiter and starts a token)
LinesCount == \A i \in DOMAIN got : got[i].ln = Lines(got[i].e)
=============================================================================
