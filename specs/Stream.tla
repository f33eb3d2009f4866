------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* The widest view of a parser: it hands out a stream of `total` bytes in   *)
(* consecutive pieces, the events.  Nothing is lost, invented or reordered *)
(* (the pieces are consecutive), every piece but the last holds something, *)
(* and the last one is announced as such.  The last one is empty only if   *)
(* there is nothing that an event could have ended with: at the beginning  *)
(* of the stream or after a complete line.                                 *)
(***************************************************************************)
EXTENDS Naturals

CONSTANT Totals         \* the lengths of streams to consider
VARIABLES total,        \* length of the stream
          lines,        \* the positions right after a newline
          pos,          \* bytes handed out
          fin           \* the last event was handed out
vars == <<total, lines, pos, fin>>

Init == total \in Totals /\ lines \in SUBSET (1..total) /\ pos = 0 /\ fin = FALSE
Event(n) == ~fin /\ n > 0 /\ pos + n <= total /\ (pos + n = total => total \in lines) /\ pos' = pos + n /\ fin' = FALSE /\ UNCHANGED total
Last(n) == ~fin /\ pos + n = total /\ pos' = pos + n /\ fin' = TRUE /\ UNCHANGED total
Finish(n) == Last(n) /\ (n = 0 => pos = 0 \/ pos \in lines)
Next == (\E n \in 0..(total - pos) : Event(n) \/ Finish(n)) /\ UNCHANGED lines
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

TypeOK == pos \in 0..total /\ fin \in BOOLEAN
\* Nothing is left over at the end
Complete == fin => pos = total
Terminates == <>fin
\* There are at most total + 1 events: every step but the last one moves on
Progress == [][pos' > pos \/ fin']_vars
=============================================================================
