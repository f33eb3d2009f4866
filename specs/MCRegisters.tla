---------------------------- MODULE MCRegisters -----------------------------
(* What the operations leave alone, for all short histories *)
EXTENDS Registers, FiniteSets
CONSTANTS MaxCells, MaxRegs, Pos
Others(r) == {i \in DOMAIN regs : i # r + 1}
Next ==
    \/ \E c \in 0..MaxCells, p \in Pos : Len(regs) < MaxRegs /\ Len(val) < MaxCells /\ Add(c, p)
    \/ \E r \in 0..MaxRegs, p \in Pos : Set(r, p)
    \/ \E r \in 0..MaxRegs, s \in 0..MaxRegs : CopyTo(r, s)
    \/ \E r \in 0..MaxRegs, p \in Pos : Len(val) < MaxCells /\ AppendTo(r, p)
Spec == Init /\ [][Next]_vars

\* copying and appending change one register only, setting one position in the histories that share it
LocalStep ==
    \/ \E r \in 0..MaxRegs, s \in 0..MaxRegs :
          IsReg(r) /\ IsReg(s) /\ All' = [All EXCEPT ![r + 1] = All[s + 1]]
    \/ \E r \in 0..MaxRegs, p \in Pos :
          IsReg(r) /\ All' = [All EXCEPT ![r + 1] = <<p>> \o All[r + 1]]
    \/ \E r \in 0..MaxRegs, p \in Pos :
          /\ IsReg(r) /\ History(r)' = <<p>> \o Tail(History(r))
          /\ \A i \in DOMAIN regs :
                LET h == HistOf(regs[i])
                    shared == {j \in DOMAIN h : h[j] = regs[r + 1]}
                IN /\ Len(All'[i]) = Len(All[i]) /\ Cardinality(shared) <= 1
                   /\ \A j \in DOMAIN h : All'[i][j] = IF j \in shared THEN p ELSE All[i][j]
    \/ Len(regs') = Len(regs) + 1 /\ SubSeq(All', 1, Len(regs)) = All
Local == [][LocalStep]_vars
Rooted == \A c \in DOMAIN val : hist[c][1] = c /\ (Len(hist[c]) > 1 => hist[hist[c][2]] = Tail(hist[c]))
=============================================================================
