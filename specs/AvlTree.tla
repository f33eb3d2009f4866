------------------------------ MODULE AvlTree -------------------------------
(***************************************************************************)
(* The interval tree as it is built: a search tree by (lo, hi) whose nodes *)
(* carry the bounds and the height of their subtree, rebalanced by single  *)
(* and double rotations.  It refines IntervalTree, stays balanced, and its *)
(* bounds are those of the intervals below.                                *)
(* A tree is <<>> or <<[lo, hi, v, l, r, h, min, max]>>.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Max,       \* interval bounds are 0..Max
          Vals, MaxHeld,
          Sloppy     \* leave the bounds of a rotated node as they were: must not refine
VARIABLES t,         \* the tree
          op         \* the last operation and what it yielded
vars == <<t, op>>

H(x) == IF x = <<>> THEN 0 ELSE x[1].h
Maximum(S) == CHOOSE x \in S : \A y \in S : y <= x
Update(n) == LET ls == IF n.l = <<>> THEN {} ELSE {n.l[1].max}
                 rs == IF n.r = <<>> THEN {} ELSE {n.r[1].max}
             IN [n EXCEPT !.h = Maximum({H(n.l), H(n.r)}) + 1,
                          !.min = IF n.l = <<>> THEN n.lo ELSE n.l[1].min,
                          !.max = Maximum({n.hi} \cup ls \cup rs)]
Leaf(lo, hi, v) == [lo |-> lo, hi |-> hi, v |-> v, l |-> <<>>, r |-> <<>>, h |-> 1, min |-> lo, max |-> hi]
Fix(n) == IF Sloppy THEN [Update(n) EXCEPT !.max = n.max] ELSE Update(n)

RotCw(n) == LET m == n.l[1] IN Update([m EXCEPT !.r = <<Fix([n EXCEPT !.l = m.r])>>])
RotCcw(n) == LET m == n.r[1] IN Update([m EXCEPT !.l = <<Fix([n EXCEPT !.r = m.l])>>])
Factor(n) == H(n.r) - H(n.l)
Balance(n) ==
    LET f == Factor(n) IN
    IF f \in -1..1 THEN n
    ELSE IF f < 0
         THEN RotCw(IF Factor(n.l[1]) > 0 THEN [n EXCEPT !.l = <<RotCcw(n.l[1])>>] ELSE n)
         ELSE RotCcw(IF Factor(n.r[1]) < 0 THEN [n EXCEPT !.r = <<RotCw(n.r[1])>>] ELSE n)
Less(a, b, n) == a < n.lo \/ (a = n.lo /\ b < n.hi)

RECURSIVE Ins(_, _, _, _)
Ins(x, lo, hi, v) ==
    IF x = <<>> THEN <<Leaf(lo, hi, v)>>
    ELSE LET n == x[1] IN
         IF lo = n.lo /\ hi = n.hi THEN <<[n EXCEPT !.v = v]>>
         ELSE IF Less(lo, hi, n) THEN <<Balance(Update([n EXCEPT !.l = Ins(n.l, lo, hi, v)]))>>
              ELSE <<Balance(Update([n EXCEPT !.r = Ins(n.r, lo, hi, v)]))>>

Within(n, lo, hi) == n.min <= hi /\ lo <= n.max
Here(n, lo, hi) == n.lo <= hi /\ lo <= n.hi
RECURSIVE FindIn(_, _, _)
FindIn(x, lo, hi) ==
    IF x = <<>> THEN <<>>
    ELSE LET n == x[1] IN
         IF ~Within(n, lo, hi) THEN <<>>
         ELSE FindIn(n.l, lo, hi) \o (IF Here(n, lo, hi) THEN <<<<n.lo, n.hi, n.v>>>> ELSE <<>>) \o FindIn(n.r, lo, hi)
RECURSIVE AllOf(_)
AllOf(x) == IF x = <<>> THEN <<>> ELSE AllOf(x[1].l) \o <<<<x[1].lo, x[1].hi, x[1].v>>>> \o AllOf(x[1].r)

\* <<tree without its first node, that node>>
RECURSIVE PopMin(_)
PopMin(x) == IF x[1].l = <<>> THEN <<x[1].r, x[1]>>
             ELSE LET y == PopMin(x[1].l) IN <<<<Balance(Update([x[1] EXCEPT !.l = y[1]]))>>, y[2]>>
\* <<tree without the first node that overlaps, <<>> or <<that node>>>>
RECURSIVE PopOne(_, _, _)
PopOne(x, lo, hi) ==
    IF x = <<>> THEN <<<<>>, <<>>>>
    ELSE LET n == x[1] IN
      IF ~Within(n, lo, hi) THEN <<x, <<>>>>
      ELSE LET left == PopOne(n.l, lo, hi) IN
        IF left[2] # <<>> THEN <<<<Balance(Update([n EXCEPT !.l = left[1]]))>>, left[2]>>
        ELSE IF ~Here(n, lo, hi)
             THEN LET right == PopOne(n.r, lo, hi)
                  IN <<<<Balance(Update([n EXCEPT !.r = right[1]]))>>, right[2]>>
             ELSE IF n.l = <<>> THEN <<n.r, <<n>>>>
             ELSE IF n.r = <<>> THEN <<n.l, <<n>>>>
             ELSE LET y == PopMin(n.r) IN <<<<Balance(Update([y[2] EXCEPT !.l = n.l, !.r = y[1]]))>>, <<n>>>>
RECURSIVE PopAll(_, _, _)
PopAll(x, lo, hi) ==
    LET y == PopOne(x, lo, hi) IN
    IF y[2] = <<>> THEN <<y[1], <<>>>>
    ELSE LET z == PopAll(y[1], lo, hi) IN <<z[1], <<<<y[2][1].lo, y[2][1].hi, y[2][1].v>>>> \o z[2]>>

Init == t = <<>> /\ op = <<"reset", 0, 0, 0, <<>>>>
Bounds == {b \in (0..Max) \X (0..Max) : b[1] <= b[2]}
Insert(b, v) == /\ Len(AllOf(t)) < MaxHeld
                /\ t' = Ins(t, b[1], b[2], v) /\ op' = <<"insert", b[1], b[2], v, <<>>>>
Find(b) == t' = t /\ op' = <<"find", b[1], b[2], 0, FindIn(t, b[1], b[2])>>
Pop(b) == LET y == PopAll(t, b[1], b[2]) IN t' = y[1] /\ op' = <<"pop", b[1], b[2], 0, y[2]>>
Next == \E b \in Bounds : Find(b) \/ Pop(b) \/ \E v \in Vals : Insert(b, v)
Spec == Init /\ [][Next]_vars

Held == LET w == AllOf(t) IN {w[i] : i \in DOMAIN w}
I == INSTANCE IntervalTree WITH held <- Held
IStep == CASE op'[1] = "insert" -> I!Insert(op'[2], op'[3], op'[4])
           [] op'[1] = "find" -> Len(op'[5]) = Cardinality(I!Elements(op'[5])) /\ I!Find(op'[2], op'[3], I!Elements(op'[5]))
           [] op'[1] = "pop" -> Len(op'[5]) = Cardinality(I!Elements(op'[5])) /\ I!Pop(op'[2], op'[3], I!Elements(op'[5]))
Refines == [][IStep]_vars

RECURSIVE Sound(_)
Sound(x) == x = <<>> \/
    (/\ Sound(x[1].l) /\ Sound(x[1].r) /\ Factor(x[1]) \in -1..1
     /\ LET n == x[1]  w == AllOf(x) IN
        /\ n.h = Maximum({H(n.l), H(n.r)}) + 1
        /\ n.min = w[1][1]
        /\ n.max = Maximum({w[i][2] : i \in DOMAIN w}))
Balanced == Sound(t) /\ I!InOrder(AllOf(t))
View == t
=============================================================================
