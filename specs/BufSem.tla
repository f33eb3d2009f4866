------------------------------- MODULE BufSem -------------------------------
(***************************************************************************)
(* BufferParser: LogSem's machine over a window of the stream that the     *)
(* caller owns.  A call shows it the bytes up to `lim` (and whether they   *)
(* are all); it returns the event at `es`, or, when it would have to look  *)
(* beyond `lim`, gives up the event and starts over from its beginning,    *)
(* as if the input started there, once it is shown more.                   *)
(***************************************************************************)
EXTENDS LogSem

VARIABLES
    lim,    \* bytes 1..lim have been shown
    finb,   \* they are all there are
    mode,   \* "idle" between calls, "run" during one
    es      \* where the next event starts: what the caller's offset stands for

bufvars == <<lim, finb, mode, es>>

InitBuf(c) == InitCase(c) /\ lim = 0 /\ finb = FALSE /\ mode = "idle" /\ es = 1

Call(n, f) ==
    /\ mode = "idle" /\ ~fin
    /\ n >= lim /\ n <= Len(Inp) /\ (f => n = Len(Inp))
    /\ lim' = n /\ finb' = f /\ mode' = "run"
    /\ UNCHANGED <<vars, es>>

Lex == mode = "run" /\ (p <= lim \/ finb) /\ ReadChar /\ UNCHANGED bufvars
Collect == mode = "run" /\ TakeToken /\ UNCHANGED bufvars

EvEnd(e) == IF e.toks = <<>> THEN es ELSE e.toks[Len(e.toks)].e

ReturnEvent ==
    /\ mode = "run" /\ ev # <<>>
    /\ es' = EvEnd(ev[1])
    /\ ev' = <<>> /\ mode' = "idle"
    /\ UNCHANGED <<k, lexvars, tq, toks, hts, fin, lim, finb>>

OutOfBounds ==
    /\ mode = "run" /\ ev = <<>> /\ tq = <<>> /\ ~fin /\ ~finb /\ p > lim
    /\ mode' = "idle"
    /\ p' = es /\ q' = es /\ m' = es /\ mt' = <<>> /\ sof' = TRUE
    /\ st' = Delta(Sch, Start, SOF)
    /\ toks' = <<>> /\ hts' = FALSE
    /\ UNCHANGED <<k, tq, ev, fin, lim, finb, es>>

BufNext == Lex \/ Collect \/ ReturnEvent \/ OutOfBounds
=============================================================================
