---------------------------- MODULE IntervalTree ----------------------------
(* What the interval tree holds: a set of intervals, each with its latest value *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLE held      \* set of <<lo, hi, value>>
Overlaps(d, lo, hi) == d[1] <= hi /\ lo <= d[2]
Hits(lo, hi) == {d \in held : Overlaps(d, lo, hi)}
Init == held = {}
Insert(lo, hi, v) == held' = {d \in held : d[1] # lo \/ d[2] # hi} \cup {<<lo, hi, v>>}
Find(lo, hi, res) == res = Hits(lo, hi) /\ UNCHANGED held
Pop(lo, hi, res) == res = Hits(lo, hi) /\ held' = held \ res
Reset == held' = {}
Before(d, e) == d[1] < e[1] \/ (d[1] = e[1] /\ d[2] < e[2])
\* a listing is in order and without repetition
InOrder(w) == \A i \in 1..Len(w) - 1 : Before(w[i], w[i + 1])
Elements(w) == {w[i] : i \in DOMAIN w}
=============================================================================
