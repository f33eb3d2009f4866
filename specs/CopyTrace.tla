----------------------------- MODULE CopyTrace ------------------------------
(***************************************************************************)
(* Trace validation against Copies: what copies and views of the real      *)
(* library show along histories of parses, resets, copies, copies of       *)
(* copies and drops.  CASES: lines of [op, s, t, v]; v is what is shown.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
None == [none |-> TRUE]
VARIABLES k, held, copies, l
vars == <<k, held, copies, l>>
Slots == {"a", "b", "c", "d"}
C == INSTANCE Copies WITH Values <- {}

Lines == Cases[k].lines
TInit == \E c \in DOMAIN Cases : k = c /\ l = 1 /\ C!Init
Line == Lines[l]

Step ==
    /\ UNCHANGED k
    /\ l <= Len(Lines) /\ l' = l + 1
    /\ CASE Line.op = "parse" -> C!Parse(Line.v)
         [] Line.op = "forget" -> C!Forget
         [] Line.op = "copy" -> C!Copy(Line.s) /\ Line.v = held
         \* an event without tokens cannot be copied: the attempt changes nothing
         [] Line.op = "nocopy" -> held # None /\ held.toks = <<>> /\ UNCHANGED <<held, copies>>
         [] Line.op = "copycopy" -> C!CopyCopy(Line.s, Line.t) /\ Line.v = copies[Line.s]
         [] Line.op = "move" -> C!Move(Line.s, Line.t)
         [] Line.op = "drop" -> C!Drop(Line.s)
         [] Line.op = "show" -> Line.v = copies[Line.s] /\ UNCHANGED <<held, copies>>
         [] OTHER -> FALSE

Accept == /\ l = Len(Lines) + 1 /\ Cases[k].end = "end"
          /\ PrintT(<<"ACCEPT", k>>)
          /\ l' = l + 1 /\ UNCHANGED <<k, held, copies>>
TNext == Step \/ Accept
TSpec == TInit /\ [][TNext]_vars
Explains == l <= Len(Lines) => ENABLED Step
=============================================================================
