----------------------------- MODULE FileReader -----------------------------
(***************************************************************************)
(* A reader of files: what is left of the open file is delivered in order, *)
(* in blocks or up to a delimiter, and then the end of file, until it is   *)
(* closed or another file is opened.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences
VARIABLES files,   \* the bytes of each file; <<-1>> for one that does not exist, <<-2>> for a directory
          name,    \* the open file, 0 if none
          pos      \* bytes delivered
vars == <<name, pos>>
File(f) == files[f]
Closed == 0
Missing == <<-1>>
Dir == <<-2>>

Init == name = Closed /\ pos = 0
Open(f, rc) ==
    /\ pos' = 0
    /\ IF File(f) = Missing THEN rc = "FileNotFound" /\ name' = Closed
       ELSE rc = "Success" /\ name' = f
Close == name' = Closed /\ pos' = 0
New == name' = Closed /\ pos' = 0

Left == Len(File(name)) - pos
Piece(n) == SubSeq(File(name), pos + 1, pos + n)
Min(a, b) == IF a < b THEN a ELSE b

\* a block of up to n bytes; short only at the end
Read(n, rc, d) ==
    /\ UNCHANGED name
    /\ IF name = Closed THEN rc = "NotInit" /\ d = <<>> /\ UNCHANGED pos
       ELSE IF File(name) = Dir
            THEN rc = (IF n > 0 THEN "Errno" ELSE "Success") /\ d = <<>> /\ UNCHANGED pos
       ELSE LET m == Min(n, Left) IN
            /\ d = Piece(m)
            /\ rc = IF m = 0 /\ n > 0 THEN "EndOfFile" ELSE "Success"
            /\ pos' = pos + m

\* up to and including the next delimiter, or to the end; keep: deliver the delimiter, too
Upto(c) == IF \E i \in pos + 1..Len(File(name)) : File(name)[i] = c
           THEN (CHOOSE i \in pos + 1..Len(File(name)) :
                    File(name)[i] = c /\ \A j \in pos + 1..i - 1 : File(name)[j] # c) - pos
           ELSE Left
Line(c, keep, rc, d) ==
    /\ name # Closed /\ UNCHANGED name
    /\ IF File(name) = Dir THEN rc = "Errno" /\ UNCHANGED pos
       ELSE IF Left = 0 THEN rc = "EndOfFile" /\ d = <<>> /\ UNCHANGED pos
       ELSE LET m == Upto(c)
                w == Piece(m)
            IN /\ rc = "Success" /\ pos' = pos + m
               /\ d = IF ~keep /\ w[m] = c THEN SubSeq(w, 1, m - 1) ELSE w
=============================================================================
