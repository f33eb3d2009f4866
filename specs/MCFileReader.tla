---------------------------- MODULE MCFileReader ----------------------------
(* What FileReader delivers from one open to the next is the file from its beginning *)
EXTENDS Integers, Sequences
CONSTANTS Max
VARIABLES name, pos, got, rc, files
vars == <<name, pos, got, rc, files>>
F == INSTANCE FileReader
Contents == UNION {[1..n -> {1, 2}] : n \in 0..Max} \cup {F!Missing, F!Dir}
Data == UNION {[1..n -> {1, 2}] : n \in 0..Max}
Codes == {"Success", "EndOfFile", "FileNotFound", "NotInit", "Errno"}
Init == F!Init /\ got = <<>> /\ rc = "Success" /\ files \in [1..2 -> Contents]
Next ==
    /\ UNCHANGED files
    /\ rc' \in Codes
    /\ \/ \E f \in 1..2 : F!Open(f, rc') /\ got' = <<>>
       \/ F!Close /\ got' = <<>> /\ rc' = "Success"
       \/ \E n \in 0..Max + 1, d \in Data : F!Read(n, rc', d) /\ got' = IF rc' = "Errno" THEN got ELSE got \o d
       \/ \E c \in {1, 2}, keep \in BOOLEAN, d \in Data :
             F!Line(c, keep, rc', d) /\ got' = IF rc' = "Errno" THEN got ELSE got \o (IF pos' - pos > Len(d) THEN Append(d, c) ELSE d)
Spec == Init /\ [][Next]_vars
Open == name # F!Closed /\ F!File(name) # F!Dir
InOrder == Open => got = SubSeq(F!File(name), 1, pos)
AtEnd == (Open /\ rc = "EndOfFile") => got = F!File(name)
NeverMissing == name # F!Closed => F!File(name) # F!Missing
=============================================================================
