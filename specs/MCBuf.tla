-------------------------------- MODULE MCBuf -------------------------------
(***************************************************************************)
(* BufSem checked exhaustively: however the caller shows the stream, the   *)
(* events are those of LogSem for the whole of it, up to the name of a     *)
(* timestamp that starts an event.                                         *)
(***************************************************************************)
EXTENDS BufSem, Json, IOUtils

Raw == ndJsonDeserialize(IOEnv.SCHEMAS)
Compiled == [i \in DOMAIN Raw |-> Compile(Raw[i])]
MSchOf(c) == Compiled[c[1]]
MInpOf(c) == c[2]
Words(i) == LET al == {Raw[i].alphabet[j] : j \in DOMAIN Raw[i].alphabet}
            IN UNION {[1..n -> al] : n \in 0..Raw[i].n}

VARIABLES out,     \* the events returned
          rp, rst, rq, rm, rmt, rsof, rtq, rtoks, rhts, rev, rfin, rout  \* LogSem on the whole stream
rvars == <<rp, rst, rq, rm, rmt, rsof, rtq, rtoks, rhts, rev, rfin, rout>>
bvars == <<vars, bufvars, out, rvars>>

R == INSTANCE LogSem WITH p <- rp, st <- rst, q <- rq, m <- rm, mt <- rmt, sof <- rsof, tq <- rtq,
                          toks <- rtoks, hts <- rhts, ev <- rev, fin <- rfin

MInit == \E i \in DOMAIN Raw : \E w \in Words(i) :
            InitBuf(<<i, w>>) /\ out = <<>> /\ R!InitCase(<<i, w>>) /\ rout = <<>>

\* First the whole stream is read, then it is shown piece by piece
RDone == rfin /\ rev = <<>>
RStep == /\ ~RDone
         /\ \/ (R!ReadChar \/ R!TakeToken) /\ UNCHANGED rout
            \/ /\ rev # <<>> /\ rev' = <<>> /\ rout' = Append(rout, rev[1])
               /\ UNCHANGED <<k, rp, rst, rq, rm, rmt, rsof, rtq, rtoks, rhts, rfin>>
         /\ UNCHANGED <<p, st, q, m, mt, sof, tq, toks, hts, ev, fin, bufvars, out>>

\* A caller shows more, or says that there is no more, whenever it was told out of bounds
MCall == \E n \in lim..Len(Inp), f \in BOOLEAN :
            /\ RDone
            /\ (finb => f) /\ (n > lim \/ f \/ p <= lim)
            /\ Call(n, f) /\ UNCHANGED <<out, rvars>>
MReturn == ReturnEvent /\ out' = Append(out, ev[1]) /\ UNCHANGED rvars
MNext == RStep \/ MCall \/ ((Lex \/ Collect \/ OutOfBounds) /\ UNCHANGED <<out, rvars>>) \/ MReturn
MSpec == MInit /\ [][MNext]_bvars /\ WF_bvars(MNext)

\* A timestamp that starts an event is named after what came before it
Norm(ty) == IF ty[1] = "newLineTimestamp" THEN [ty EXCEPT ![1] = "firstTimestamp"] ELSE ty
NormEv(e) == [e EXCEPT !.toks = [i \in DOMAIN e.toks |->
                                   IF i = 1 THEN [e.toks[i] EXCEPT !.ty = Norm(@)] ELSE e.toks[i]]]

\* However the stream was shown, the events are those of the whole stream
Agree == /\ Len(out) <= Len(rout)
         /\ \A i \in DOMAIN out : NormEv(out[i]) = NormEv(rout[i])
         /\ fin /\ mode = "idle" => Len(out) = Len(rout)

\* The offset is where the next event starts: all before it has been returned, once
RECURSIVE Cat(_)
Cat(i) == IF i > Len(out) THEN <<>> ELSE EvText(out[i]) \o Cat(i + 1)
OffsetIsNext == mode = "idle" => Cat(1) = SubSeq(Inp, 1, es - 1)
EveryByteOnce == fin /\ mode = "idle" => Cat(1) = Inp

Finishes == <>(fin /\ mode = "idle")
=============================================================================
