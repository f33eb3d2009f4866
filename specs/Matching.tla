------------------------------ MODULE Matching ------------------------------
EXTENDS Regex

(* Which parts of the input an expression matches: the ends of its matches  *)
(* that start at i, by the textbook definition of the language              *)
RECURSIVE Ends(_, _, _, _, _), Iter(_, _, _, _, _, _)
Ends(T, n, w, i, nodot) ==
    LET nd == T[n] IN
    CASE nd.t = "eps" -> {i}
      [] nd.t \in {"set", "dot"} -> IF i <= Len(w) /\ ByteIn(nd, w[i], nodot) THEN {i + 1} ELSE {}
      [] nd.t = "cat" -> UNION {Ends(T, nd.b, w, j, nodot) : j \in Ends(T, nd.a, w, i, nodot)}
      [] nd.t = "or" -> Ends(T, nd.a, w, i, nodot) \cup Ends(T, nd.b, w, i, nodot)
      [] nd.t = "cap" -> Ends(T, nd.a, w, i, nodot)
      [] nd.t = "rep" ->
           LET most == IF nd.hi = -1 THEN nd.lo + Len(w) + 1 ELSE nd.hi
           IN UNION {Iter(T, nd.a, w, {i}, r, nodot) : r \in nd.lo..most}
\* the ends of r matches in a row
Iter(T, n, w, from, r, nodot) ==
    IF r = 0 THEN from
    ELSE Iter(T, n, w, UNION {Ends(T, n, w, j, nodot) : j \in from}, r - 1, nodot)
=============================================================================
