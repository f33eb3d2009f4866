----------------------------- MODULE RingParser -----------------------------
(***************************************************************************)
(* The design of ReaderParser: a buffer of two halves that are filled in   *)
(* turn and that doubles when an event does not fit, a lexer that keeps    *)
(* positions in that buffer, a reader that may return few bytes, or fail,  *)
(* and a parser that can be reset at any point.  LogSem runs beside it,    *)
(* always one event ahead, and says which event is due.                    *)
(***************************************************************************)
EXTENDS LogSem, Json, IOUtils

CONSTANTS Initial,    \* size of the buffer at the start (even)
          Chunks,     \* what a read may return at most
          Failures,   \* how often the reader may fail
          Resets      \* how often the parser may be reset

Raw == ndJsonDeserialize(IOEnv.SCHEMAS)
Compiled == [i \in DOMAIN Raw |-> Compile(Raw[i])]
\* a case is <<schema, input>>
MSchOf(c) == Compiled[c[1]]
MInpOf(c) == c[2]
Words(i) == LET al == {Raw[i].alphabet[j] : j \in DOMAIN Raw[i].alphabet}
            IN UNION {[1..n -> al] : n \in 0..Raw[i].n}
\* what is parsed after a reset
Again(i) == {<< >>} \cup {Raw[i].again[j] : j \in DOMAIN Raw[i].again}

VARIABLES
    pc,
    \* reader
    given,      \* bytes the reader has handed out
    failures, resets,
    \* ParserInputBuffer
    bufs,       \* all storages since the last reset, the last one is active; positions count from 0
    pos, lastFirst, consumed, into, posLast, finRead, full,
    \* Lexer
    ls,         \* the state of the automaton ({}: none)
    startPos, matchPos, lastMatch, match, mids, asked, startOfFile,
    \* LogParser and ReaderParser
    out,        \* tokens of the event so far
    outTs, hasStart, startTok, incomplete, isLast, isDone,
    tok,        \* the token that was scanned
    \* history
    gone,       \* bytes of the events that were returned
    look,       \* the bytes of the event in progress, and what must be seen to end it
    need        \* the most that any event took
inputVars == <<bufs, pos, lastFirst, consumed, into, posLast, finRead, full>>
lexerVars == <<ls, startPos, matchPos, lastMatch, match, mids, asked, startOfFile>>
parserVars == <<out, outTs, hasStart, startTok, incomplete, isLast, isDone, tok>>
hist == <<gone, look, need>>
readerVars == <<given, failures, resets>>
ring == <<pc, readerVars, inputVars, lexerVars, parserVars, hist>>
allvars == <<vars, ring>>

Max(a, b) == IF a > b THEN a ELSE b
Size == Len(bufs[Len(bufs)])
Half == Size \div 2
At(i) == bufs[Len(bufs)][i + 1]
None == [b |-> 0, s |-> 0, e |-> 0, ty |-> <<>>]

Fresh(sch) ==
    /\ pos = 0 /\ lastFirst = FALSE /\ consumed = Initial - 1 /\ into = 0 /\ posLast = 0
    /\ finRead = FALSE /\ full = FALSE
    /\ ls = Delta(sch, Start, SOF) /\ startPos = 0 /\ matchPos = 0 /\ lastMatch = 0
    /\ match = FALSE /\ mids = {} /\ asked = TRUE /\ startOfFile = TRUE
    /\ hasStart = FALSE /\ incomplete = FALSE

RInit ==
    /\ \E i \in DOMAIN Raw : \E w \in Words(i) : InitCase(<<i, w>>)
    /\ Fresh(Sch)
    /\ bufs = << [i \in 1..Initial |-> 0] >>
    /\ out = <<>> /\ outTs = FALSE /\ startTok = None /\ isLast = FALSE /\ isDone = FALSE /\ tok = None
    /\ pc = "idle" /\ given = 0 /\ failures = Failures /\ resets = Resets
    /\ gone = 0 /\ look = 0 /\ need = 0

-----------------------------------------------------------------------------
(* parse_next_event *)
Call ==
    /\ pc = "idle" /\ ~isDone
    /\ IF incomplete THEN UNCHANGED <<out, outTs>> ELSE out' = <<>> /\ outTs' = FALSE
    /\ incomplete' = TRUE /\ pc' = "read"
    /\ UNCHANGED <<readerVars, inputVars, lexerVars, hasStart, startTok, isLast, isDone, tok, hist>>

ReadIsSafe == ~finRead /\ IF lastFirst THEN consumed < Half ELSE consumed >= Half

SkipRead ==
    /\ pc = "read" /\ ~ReadIsSafe /\ pc' = "parse"
    /\ UNCHANGED <<readerVars, inputVars, lexerVars, parserVars, hist>>

Overwrite(b, at, n) == [i \in 1..Len(b) |-> IF i - 1 \in at..at + n - 1 THEN Inp[given + i - at] ELSE b[i]]

Flip(filled) ==
    IF filled = 0 THEN UNCHANGED <<lastFirst, posLast>> /\ into' = 0
    ELSE /\ lastFirst' = ~lastFirst /\ into' = 0
         /\ posLast' = IF posLast + filled >= Size THEN posLast + filled - Size ELSE posLast + filled

\* One call of the reader
Read ==
    /\ pc = "read" /\ ReadIsSafe
    /\ LET off == IF lastFirst THEN Half ELSE 0
           left == Len(Inp) - given
           want == Half - into
           most == IF left < want THEN left ELSE want
       IN \/ /\ most = 0     \* the end of the input
             /\ finRead' = TRUE /\ Flip(into) /\ pc' = "parse"
             /\ UNCHANGED <<given, failures, bufs>>
          \/ /\ most > 0
             /\ \E n \in {IF c < most THEN c ELSE most : c \in Chunks} :
                  /\ bufs' = [bufs EXCEPT ![Len(bufs)] = Overwrite(@, off + into, n)]
                  /\ given' = given + n
                  /\ IF into + n = Half THEN Flip(Half) /\ pc' = "parse"
                     ELSE into' = into + n /\ UNCHANGED <<lastFirst, posLast, pc>>
             /\ UNCHANGED <<finRead, failures>>
          \/ /\ failures > 0 /\ failures' = failures - 1
             /\ pc' = "idle"      \* the call returns the reader's error
             /\ UNCHANGED <<given, bufs, lastFirst, posLast, into, finRead>>
    /\ UNCHANGED <<resets, pos, consumed, full, lexerVars, parserVars, hist>>

\* BufferOutOfBounds: double the buffer, oldest bytes first
Grow ==
    /\ pc = "grow"
    /\ LET b == bufs[Len(bufs)]
           order == IF lastFirst THEN SubSeq(b, Half + 1, Size) \o SubSeq(b, 1, Half) ELSE b
           oldEnd == IF lastFirst THEN Half ELSE 0
           Rebase(x) == Size - ((oldEnd + Size - x) % Size)
       IN /\ bufs' = Append(bufs, order \o [i \in 1..Size |-> 0])
          /\ startPos' = Rebase(startPos) /\ matchPos' = Rebase(matchPos) /\ lastMatch' = Rebase(lastMatch)
          /\ pos' = Size /\ posLast' = Size
    /\ lastFirst' = TRUE
    /\ pc' = "read"
    /\ UNCHANGED <<readerVars, consumed, into, finRead, full, ls, match, mids, asked, startOfFile, parserVars, hist>>

-----------------------------------------------------------------------------
(* Lexer::scan *)
Tok(s, e, ty) == [b |-> Len(bufs), s |-> s, e |-> e, ty |-> ty]
Names(is) == NamesInOrder(Sch.rules, is)
Wrap(x) == IF x = Size THEN 0 ELSE x

NoMoreBytes == finRead /\ pos = posLast
OutOfBounds == ~NoMoreBytes /\ IF lastFirst THEN pos = Half ELSE pos = 0

Scan ==
    /\ pc = "scan"
    /\ IF asked
       THEN asked' = FALSE /\ pc' = "char" /\ UNCHANGED <<match, lastMatch, startPos, matchPos, mids, ls, tok>>
       ELSE IF match
       THEN /\ match' = FALSE /\ lastMatch' = matchPos
            /\ tok' = Tok(startPos, matchPos, IF mids = {} THEN <<"$end">> ELSE Names(mids))
            /\ pc' = "token" /\ UNCHANGED <<asked, startPos, matchPos, mids, ls>>
       ELSE /\ startPos' = pos /\ matchPos' = pos /\ mids' = {} /\ ls' = Start
            /\ pc' = "char" /\ UNCHANGED <<asked, match, lastMatch, tok>>
    /\ UNCHANGED <<readerVars, inputVars, startOfFile, out, outTs, hasStart, startTok, incomplete, isLast, isDone, hist>>

Ask(state) == asked' = TRUE /\ ls' = state /\ pc' = "grow"

Char ==
    /\ pc = "char"
    /\ IF OutOfBounds
       THEN /\ Ask(ls)
            /\ UNCHANGED <<pos, full, startPos, matchPos, lastMatch, match, mids, startOfFile, tok>>
       ELSE
       LET eof == NoMoreBytes
           c == IF eof THEN 255 ELSE At(pos)
           next == IF eof THEN pos ELSE Wrap(pos + 1)
           hit == (eof \/ c \in Sch.delims) /\ Accepted(Sch, ls) # {}
           match1 == match \/ hit
           nl == ~eof /\ c = NL /\ ~match1
           start2 == IF nl THEN pos ELSE startPos
           end2 == IF nl THEN next ELSE IF hit THEN pos ELSE matchPos
           ids2 == IF nl THEN {1} ELSE IF hit THEN Accepted(Sch, ls) ELSE mids
           ls2 == IF eof THEN {} ELSE IF nl THEN Delta(Sch, Start, NL) ELSE Delta(Sch, ls, c)
       IN IF ls2 # {}
          THEN /\ ls' = ls2 /\ pos' = next /\ startPos' = start2 /\ matchPos' = end2
               /\ match' = (match1 \/ nl) /\ mids' = ids2
               /\ UNCHANGED <<full, lastMatch, asked, startOfFile, tok, pc>>
          ELSE IF match1 \/ nl
          THEN /\ startOfFile' = FALSE /\ full' = FALSE /\ pos' = end2 /\ startPos' = start2
               /\ matchPos' = end2 /\ mids' = ids2 /\ pc' = "token"
               /\ IF lastMatch # start2
                  THEN tok' = Tok(lastMatch, start2, Uncaught) /\ match' = TRUE /\ UNCHANGED lastMatch
                  ELSE tok' = Tok(start2, end2, Names(ids2)) /\ match' = FALSE /\ lastMatch' = end2
               /\ UNCHANGED <<ls, asked>>
          ELSE IF eof /\ startPos = pos
          THEN /\ full' = TRUE /\ pc' = "token"
               /\ IF lastMatch # startPos
                  THEN /\ matchPos' = pos /\ mids' = {} /\ match' = TRUE
                       /\ tok' = Tok(lastMatch, startPos, Uncaught)
                  ELSE /\ tok' = Tok(pos, pos, <<"$end">>) /\ UNCHANGED <<matchPos, mids, match>>
               /\ UNCHANGED <<pos, ls, startPos, lastMatch, asked, startOfFile>>
          ELSE IF startOfFile
          THEN /\ startOfFile' = FALSE /\ full' = FALSE /\ pos' = startPos /\ ls' = Start
               /\ UNCHANGED <<startPos, matchPos, lastMatch, match, mids, asked, tok, pc>>
          ELSE \* skip to where the next token may start
               LET RECURSIVE Skip(_, _, _)
                   \* from: position of the character; at: position after it
                   Skip(from, at, ch) ==
                       IF ch \in Sch.delims /\ ch \in Sch.first THEN [r |-> "at", p |-> from]
                       ELSE IF finRead /\ at = posLast THEN [r |-> "end", p |-> at]
                       ELSE IF IF lastFirst THEN at = Half ELSE at = 0 THEN [r |-> "oob", p |-> at]
                       ELSE Skip(at, Wrap(at + 1), At(at))
                   r == IF eof THEN [r |-> "end", p |-> pos] ELSE Skip(pos, next, c)
               IN IF r.r = "oob"
                  THEN /\ Ask({}) /\ pos' = r.p
                       /\ UNCHANGED <<full, startPos, matchPos, lastMatch, match, mids, startOfFile, tok>>
                  ELSE /\ pos' = r.p /\ startPos' = r.p /\ ls' = Start
                       /\ full' = (full \/ r.r = "end")
                       /\ UNCHANGED <<matchPos, lastMatch, match, mids, asked, startOfFile, tok, pc>>
    /\ UNCHANGED <<readerVars, bufs, lastFirst, consumed, into, posLast, finRead,
                   out, outTs, hasStart, startTok, incomplete, isLast, isDone, hist>>

-----------------------------------------------------------------------------
(* LogParser::parse *)
StartsWithNl(t) == t.s # t.e /\ bufs[t.b][t.s + 1] = NL
After(t) == [t EXCEPT !.s = IF t.s = Len(bufs[t.b]) - 1 THEN 0 ELSE t.s + 1]
NlOnly(t) == [t EXCEPT !.e = t.s + 1, !.ty = Uncaught]

Ret(last) == pc' = "ret" /\ isLast' = last /\ incomplete' = FALSE

Parse ==
    /\ pc = "parse"
    /\ IF out = <<>> /\ hasStart
       THEN tok' = startTok /\ pc' = "token"
       ELSE UNCHANGED tok /\ pc' = "scan"
    /\ UNCHANGED <<readerVars, inputVars, lexerVars, out, outTs, hasStart, startTok, incomplete, isLast, isDone, hist>>

TakeTok ==
    /\ pc = "token"
    /\ LET t == tok
           first == out = <<>>
           ty == t.ty[1]
       IN
       IF first /\ ~hasStart /\ ~outTs
          /\ (ty = "newLineTimestamp" \/ (ty \notin {"newLine", "firstTimestamp"} /\ StartsWithNl(t)))
       THEN /\ startTok' = After(t) /\ out' = <<NlOnly(t)>> /\ consumed' = t.s /\ hasStart' = TRUE
            /\ Ret(FALSE) /\ UNCHANGED outTs
       ELSE IF first
       THEN IF ty = "$end" THEN Ret(TRUE) /\ UNCHANGED <<out, outTs, consumed, startTok, hasStart>>
            ELSE /\ out' = <<t>> /\ outTs' = IsTs(t.ty)
                 /\ UNCHANGED startTok
                 /\ IF ty = "newLine" THEN consumed' = t.s /\ Ret(FALSE) /\ UNCHANGED hasStart
                    ELSE hasStart' = FALSE /\ pc' = "scan" /\ UNCHANGED <<consumed, isLast, incomplete>>
       ELSE IF ty = "$end" THEN Ret(TRUE) /\ UNCHANGED <<out, outTs, consumed, startTok, hasStart>>
       ELSE IF ~outTs /\ ty = "newLine"
       THEN /\ out' = Append(out, t) /\ consumed' = t.s /\ Ret(FALSE)
            /\ UNCHANGED <<outTs, startTok, hasStart>>
       ELSE IF (outTs /\ ty = "newLineTimestamp") \/ (~outTs /\ StartsWithNl(t))
       THEN /\ startTok' = After(t) /\ out' = Append(out, NlOnly(t)) /\ hasStart' = TRUE
            /\ consumed' = IF After(t).s = 0 THEN Size - 1 ELSE After(t).s - 1
            /\ Ret(FALSE) /\ UNCHANGED outTs
       ELSE /\ out' = Append(out, t) /\ pc' = "scan"
            /\ UNCHANGED <<outTs, startTok, hasStart, consumed, isLast, incomplete>>
    /\ UNCHANGED <<readerVars, bufs, pos, lastFirst, into, posLast, finRead, full, lexerVars, isDone, tok, hist>>

-----------------------------------------------------------------------------
(* What the caller sees *)
TokText(t) == LET b == bufs[t.b] IN
              IF t.s <= t.e THEN SubSeq(b, t.s + 1, t.e) ELSE SubSeq(b, t.s + 1, Len(b)) \o SubSeq(b, 1, t.e)

SameEvent ==
    pc = "ret" =>
        /\ ev # <<>>
        /\ isLast = ev[1].last /\ outTs = ev[1].hts
        /\ Len(out) = Len(ev[1].toks)
        /\ \A i \in DOMAIN out : /\ out[i].ty = ev[1].toks[i].ty
                                 /\ TokText(out[i]) = Text(ev[1].toks[i])

RReturn ==
    /\ pc = "ret" /\ ev # <<>>
    /\ ev' = <<>> /\ pc' = "idle" /\ isDone' = isLast
    /\ gone' = gone + Len(EvText(ev[1]))
    /\ look' = 0 /\ UNCHANGED need
    /\ UNCHANGED <<k, lexvars, tq, toks, hts, fin,
                   readerVars, inputVars, lexerVars, out, outTs, hasStart, startTok, incomplete, isLast, tok>>

\* reset_and_set_reader: whatever is not set here keeps its value
Reset ==
    /\ pc = "idle" /\ resets > 0 /\ resets' = resets - 1
    /\ \E w \in Again(k[1]) : Restart(<<k[1], w>>)
    /\ given' = 0 /\ bufs' = << bufs[1] >> /\ isDone' = FALSE /\ gone' = 0 /\ look' = 0 /\ need' = 0
    /\ pos' = 0 /\ lastFirst' = FALSE /\ consumed' = Initial - 1 /\ into' = 0 /\ posLast' = 0
    /\ finRead' = FALSE /\ full' = FALSE
    /\ ls' = Delta(Sch, Start, SOF) /\ startPos' = 0 /\ matchPos' = 0 /\ lastMatch' = 0
    /\ match' = FALSE /\ mids' = {} /\ asked' = TRUE /\ startOfFile' = TRUE
    /\ hasStart' = FALSE /\ incomplete' = FALSE
    /\ UNCHANGED <<pc, failures, out, outTs, startTok, isLast, tok>>

Parser == Call \/ SkipRead \/ Read \/ Grow \/ Scan \/ Char \/ Parse \/ TakeTok
Ahead == /\ ReadChar \/ TakeToken
         /\ look' = Max(look, p - gone) /\ need' = Max(need, look')
         /\ UNCHANGED <<pc, readerVars, inputVars, lexerVars, parserVars, gone>>
RNext == \/ Ahead
         \/ (ev # <<>> \/ (fin /\ isDone)) /\ (RReturn \/ Reset \/ (Parser /\ UNCHANGED vars))
RSpec == RInit /\ [][RNext]_allvars /\ WF_allvars(RNext)

-----------------------------------------------------------------------------
\* C23: what was read ahead of the event fits the buffer, and the buffer stays below four times what
\* had to be looked at to tell where an event ends
ReadAhead == pc = "ret" => given - gone <= Size
Bounded == pc = "ret" => Size <= Max(Initial, 4 * need)

\* ... and that is the event and no more than the first line of the one that follows it
LineEnd(i) == LET RECURSIVE Go(_)
                  Go(j) == IF j > Len(Inp) \/ Inp[j] = NL THEN j ELSE Go(j + 1)
              IN Go(i)
NeedIsLocal == pc = "ret" => look <= LineEnd(gone + Len(EvText(ev[1])) + 1) + 1 - gone

TypeOK == /\ pos \in 0..Size /\ startPos \in 0..Size /\ matchPos \in 0..Size /\ lastMatch \in 0..Size
          /\ \A i \in DOMAIN bufs : Len(bufs[i]) = Initial * 2 ^ (i - 1)
Finishes == <>(fin /\ isDone)
=============================================================================
