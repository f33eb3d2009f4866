------------------------------ MODULE MCCopies ------------------------------
(***************************************************************************)
(* How copies are made: an event is a list of tokens, each an interval of  *)
(* storage; the parser's storage wraps around and is overwritten as it     *)
(* parses on, a copy gets storage of its own.  Refines Copies.             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Slots, Bytes, N,   \* bytes of the parser's storage
          Own                \* FALSE: a copy that shares its source's storage (must fail)
None == <<"none">>

VARIABLES buf,      \* the parser's storage
          view,     \* <<>> or << <<s, e>> ... >>: tokens of the current event, s = e: nothing
          cp        \* slot -> <<>> or [buf, toks]

vars == <<buf, view, cp>>

\* the text of a token, which may wrap around
Text(b, t) == IF t[1] <= t[2] THEN SubSeq(b, t[1] + 1, t[2])
              ELSE SubSeq(b, t[1] + 1, Len(b)) \o SubSeq(b, 1, t[2])
Show(b, ts) == [i \in DOMAIN ts |-> Text(b, ts[i])]
Held == IF view = <<>> THEN None ELSE Show(buf, view)
Copied == [s \in Slots |-> IF cp[s] = <<>> THEN None
                           ELSE Show(IF Own THEN cp[s].buf ELSE buf, cp[s].toks)]

Tokens == {<<s, e>> : s \in 0..N - 1, e \in 0..N}
Events == {<<a, b>> : a, b \in Tokens}
Adjacent(v) == v[1][2] % N = v[2][1] % N

Init == buf = [i \in 1..N |-> 0] /\ view = <<>> /\ cp = [s \in Slots |-> <<>>]

Parse == /\ buf' \in [1..N -> Bytes]
         /\ view' \in {v \in Events : Adjacent(v)}
         /\ UNCHANGED cp
Reset == view' = <<>> /\ buf' = [i \in 1..N |-> 0] /\ UNCHANGED cp

RECURSIVE Concat(_, _)
Concat(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o Concat(ss, i + 1)
\* copy the texts one behind the other, tokens point to where their text went
Deep(b, ts) ==
    LET texts == Show(b, ts)
        At(i) == LET RECURSIVE Sum(_)
                     Sum(j) == IF j = 0 THEN 0 ELSE Len(texts[j]) + Sum(j - 1)
                 IN Sum(i)
    IN [buf |-> Concat(texts, 1), toks |-> [i \in DOMAIN ts |-> <<At(i - 1), At(i)>>]]
Share(b, ts) == [buf |-> <<>>, toks |-> ts]

Copy(s) == /\ view # <<>>
           /\ cp' = [cp EXCEPT ![s] = IF Own THEN Deep(buf, view) ELSE Share(buf, view)]
           /\ UNCHANGED <<buf, view>>
CopyCopy(s, t) == /\ cp[s] # <<>>
                  /\ cp' = [cp EXCEPT ![t] = IF Own THEN Deep(cp[s].buf, cp[s].toks) ELSE cp[s]]
                  /\ UNCHANGED <<buf, view>>
\* the storage changes hands
Move(s, t) == /\ cp[s] # <<>>
              /\ cp' = [cp EXCEPT ![s] = <<>>, ![t] = cp[s]]
              /\ UNCHANGED <<buf, view>>
Drop(s) == cp' = [cp EXCEPT ![s] = <<>>] /\ UNCHANGED <<buf, view>>
Next == \/ Parse \/ Reset \/ \E s \in Slots : Copy(s) \/ Drop(s) \/ \E t \in Slots : CopyCopy(s, t) \/ Move(s, t)
Spec == Init /\ [][Next]_vars

Texts == UNION {[1..n -> Bytes \cup {0}] : n \in 0..N}
C == INSTANCE Copies WITH held <- Held, copies <- Copied, Values <- {<<a, b>> : a, b \in Texts}
Refines == C!Init /\ [][\/ C!Next \/ UNCHANGED C!vars]_<<Held, Copied>>
\* cheaper than the whole of Refines: a step changes no copy but the one it is about, or two when
\* one takes the place of the other
Independent == [][(\/ Cardinality({s \in Slots : Copied'[s] # Copied[s]}) <= 1
                   \/ \E s, t \in Slots : /\ Copied'[s] = None /\ Copied'[t] = Copied[s]
                                          /\ \A u \in Slots \ {s, t} : Copied'[u] = Copied[u])
                  /\ (Held' # Held => Copied' = Copied)]_vars
=============================================================================
