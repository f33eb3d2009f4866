---------------------------- MODULE MCDelimiting -----------------------------
(* Delimiting against matching: an expression contains byte c exactly if it *)
(* matches a word with c in it.  EXPRS: T, root, c, alphabet (of bytes that *)
(* stand for all), n: words up to this length are enough                    *)
EXTENDS Delimiting, Matching, TLC, Json, IOUtils
Exprs == ndJsonDeserialize(IOEnv.EXPRS)
VARIABLES k, w, found
vars == <<k, w, found>>
E == Exprs[k]
Nodot == {E.nodot[i] : i \in DOMAIN E.nodot}
Hit(e, nd, x) == (\E i \in DOMAIN x : x[i] = e.c) /\ Len(x) + 1 \in Ends(e.T, e.root, x, 1, nd)
Words(e) == UNION {[1..m -> {e.alphabet[i] : i \in DOMAIN e.alphabet}] : m \in 0..e.n}
Init == \E i \in DOMAIN Exprs : k = i /\ w = <<>> /\ found = FALSE
Next == ~found /\ found' = TRUE /\ UNCHANGED k /\ w' = <<>>
Spec == Init /\ [][Next]_vars
Exact == found => (Contains(E.T, E.root, E.c, Nodot) = \E x \in Words(E) : Hit(E, Nodot, x))
Weaker == Contains(E.T, E.root, E.c, Nodot) => Reads(E.T, E.root, E.c, Nodot)
=============================================================================
