------------------------------ MODULE ReadAhead -----------------------------
(***************************************************************************)
(* What a parser may hold: the bytes it has read beyond the events that it *)
(* returned, and memory.  RingParser shows that for the design the buffer  *)
(* stays below four times what must be seen to end an event (or its first  *)
(* size), that this is the event and the first line of the next, and that  *)
(* no more is read ahead than fits the buffer.                             *)
(***************************************************************************)
EXTENDS Naturals

CONSTANT Slack        \* bytes of memory that do not count
VARIABLES first,      \* first size of the buffer
          out,        \* bytes of the events returned
          seen,       \* the longest of them
          longest,    \* ... the next one included
          high,       \* most memory in use while warming up
          done
vars == <<first, out, seen, longest, high, done>>

Max(a, b) == IF a > b THEN a ELSE b
Most(l) == Max(first, 4 * (2 * l + 2))

Init(f) == first = f /\ out = 0 /\ seen = 0 /\ longest = 0 /\ high = 0 /\ done = FALSE

\* some events were returned: s: longest event up to now, l: and the next, a: most bytes read ahead of
\* an event on the way, ask: most bytes that were ever asked of the reader, mem: memory in use
Events(o, s, l, a, ask, mem, warm, d) ==
    /\ ~done
    /\ o >= out /\ out' = o
    /\ s >= seen /\ seen' = s
    /\ l >= longest /\ longest' = l
    /\ a <= Most(l)
    /\ ask <= Most(l)
    \* (a longer event than any before it may take more)
    /\ IF warm \/ s > seen THEN high' = Max(high, mem) ELSE mem <= high + Slack /\ UNCHANGED high
    /\ done' = d
    /\ UNCHANGED first
=============================================================================
