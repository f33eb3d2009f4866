------------------------------- MODULE Copies -------------------------------
(***************************************************************************)
(* What a user may hold: the view of the event that the parser returned    *)
(* last, and copies of events.  A copy is a value: it shows what its       *)
(* source showed when it was made, and nothing but dropping it changes it. *)
(***************************************************************************)
CONSTANTS Slots,     \* names of copies
          Values,    \* what an event may show
          None
VARIABLES held,      \* what the parser's view shows
          copies     \* slot -> what the copy shows
vars == <<held, copies>>

Init == held = None /\ copies = [s \in Slots |-> None]
Parse(v) == held' = v /\ UNCHANGED copies
\* the parser is reset or fails: its view shows nothing that can be relied on
Forget == held' = None /\ UNCHANGED copies
Copy(s) == held # None /\ copies' = [copies EXCEPT ![s] = held] /\ UNCHANGED held
CopyCopy(s, t) == copies[s] # None /\ copies' = [copies EXCEPT ![t] = copies[s]] /\ UNCHANGED held
\* hand the event over to another owner
Move(s, t) == copies[s] # None /\ copies' = [copies EXCEPT ![s] = None, ![t] = copies[s]] /\ UNCHANGED held
Drop(s) == copies' = [copies EXCEPT ![s] = None] /\ UNCHANGED held
Next == \/ \E v \in Values : Parse(v)
        \/ Forget
        \/ \E s \in Slots : Copy(s) \/ Drop(s) \/ \E t \in Slots : CopyCopy(s, t) \/ Move(s, t)
Spec == Init /\ [][Next]_vars
=============================================================================
