----------------------------- MODULE Registers ------------------------------
(***************************************************************************)
(* Registers as histories of positions, latest first.  Positions live in   *)
(* cells, numbered in the order of their creation, 0 being the root that   *)
(* holds none; histories that branch share the cells of their common part. *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES val,   \* the position in each cell
          hist,  \* the cells of the history that ends in each cell, latest first
          regs   \* the cell in which each register's history ends
vars == <<val, hist, regs>>

Init == val = <<>> /\ hist = <<>> /\ regs = <<>>

HistOf(c) == IF c = 0 THEN <<>> ELSE hist[c]
Positions(c) == [i \in DOMAIN HistOf(c) |-> val[HistOf(c)[i]]]
IsCell(c) == c \in 0..Len(val)
IsReg(r) == r + 1 \in DOMAIN regs

NewCell(parent, pos) ==
    /\ val' = Append(val, pos)
    /\ hist' = Append(hist, <<Len(val) + 1>> \o HistOf(parent))

\* A new register whose history is that of a cell and one more position
Add(parent, pos) == /\ IsCell(parent) /\ NewCell(parent, pos) /\ regs' = Append(regs, Len(val) + 1)
\* Replace the latest position, in all histories that share it
Set(r, pos) == /\ IsReg(r) /\ val' = [val EXCEPT ![regs[r + 1]] = pos] /\ UNCHANGED <<hist, regs>>
CopyTo(dest, src) == /\ IsReg(dest) /\ IsReg(src) /\ regs' = [regs EXCEPT ![dest + 1] = regs[src + 1]]
                     /\ UNCHANGED <<val, hist>>
AppendTo(r, pos) == /\ IsReg(r) /\ NewCell(regs[r + 1], pos) /\ regs' = [regs EXCEPT ![r + 1] = Len(val) + 1]

\* The tree of cells by itself
Insert(parent, pos) == IsCell(parent) /\ NewCell(parent, pos) /\ UNCHANGED regs
SetCell(c, pos) == /\ IsCell(c) /\ val' = (IF c = 0 THEN val ELSE [val EXCEPT ![c] = pos]) /\ UNCHANGED <<hist, regs>>

History(r) == Positions(regs[r + 1])
All == [i \in DOMAIN regs |-> Positions(regs[i])]
=============================================================================
