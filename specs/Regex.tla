------------------------------- MODULE Regex -------------------------------
(***************************************************************************)
(* The meaning of log-surgeon's regular expressions over bytes, given by   *)
(* Antimirov partial derivatives: no automaton is built, so this is        *)
(* independent of how the library compiles its expressions.                *)
(*                                                                         *)
(* An expression is a node index into a table T of records                 *)
(*   [t |-> "eps"]                          the empty string               *)
(*   [t |-> "set", neg, r |-> <<lo,hi>>s]   one byte in / not in ranges    *)
(*   [t |-> "dot"]                          one byte outside `nodot`       *)
(*   [t |-> "cat" | "or", a, b]                                            *)
(*   [t |-> "rep", a, lo, hi]               hi = -1: unbounded             *)
(*   [t |-> "cap", a, n]                    named capture                  *)
(* What remains to be matched is a continuation: a sequence of frames      *)
(* <<node, lo, hi>>, "node, at least lo and at most hi times".             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Frame(n) == <<n, 1, 1>>

ByteIn(nd, c, nodot) ==
    IF nd.t = "dot"
    THEN c \notin nodot
    ELSE (\E i \in DOMAIN nd.r : nd.r[i][1] <= c /\ c <= nd.r[i][2]) # nd.neg

RECURSIVE Nullable(_, _)
Nullable(T, n) ==
    LET nd == T[n] IN
    CASE nd.t = "eps" -> TRUE
      [] nd.t \in {"set", "dot"} -> FALSE
      [] nd.t = "cat" -> Nullable(T, nd.a) /\ Nullable(T, nd.b)
      [] nd.t = "or" -> Nullable(T, nd.a) \/ Nullable(T, nd.b)
      [] nd.t = "rep" -> nd.lo = 0 \/ Nullable(T, nd.a)
      [] nd.t = "cap" -> Nullable(T, nd.a)

NullFrame(T, f) == f[2] = 0 \/ Nullable(T, f[1])
NullCont(T, k) == \A i \in DOMAIN k : NullFrame(T, k[i])

\* All that can remain of node n after reading byte c
RECURSIVE DNode(_, _, _, _), DFrame(_, _, _, _)
DNode(T, n, c, nodot) ==
    LET nd == T[n] IN
    CASE nd.t = "eps" -> {}
      [] nd.t \in {"set", "dot"} -> IF ByteIn(nd, c, nodot) THEN {<<>>} ELSE {}
      [] nd.t = "cat" ->
           {k \o <<Frame(nd.b)>> : k \in DNode(T, nd.a, c, nodot)}
             \cup (IF Nullable(T, nd.a) THEN DNode(T, nd.b, c, nodot) ELSE {})
      [] nd.t = "or" -> DNode(T, nd.a, c, nodot) \cup DNode(T, nd.b, c, nodot)
      [] nd.t = "rep" -> DFrame(T, <<nd.a, nd.lo, nd.hi>>, c, nodot)
      [] nd.t = "cap" -> DNode(T, nd.a, c, nodot)
DFrame(T, f, c, nodot) ==
    IF f[3] = 0 THEN {}
    ELSE LET lo == IF f[2] = 0 THEN 0 ELSE f[2] - 1
             hi == IF f[3] = -1 THEN -1 ELSE f[3] - 1
             rest == IF hi = 0 THEN <<>> ELSE <<<<f[1], lo, hi>>>>
         IN {k \o rest : k \in DNode(T, f[1], c, nodot)}

RECURSIVE DCont(_, _, _, _)
DCont(T, k, c, nodot) ==
    IF k = <<>> THEN {}
    ELSE {d \o Tail(k) : d \in DFrame(T, Head(k), c, nodot)}
           \cup (IF NullFrame(T, Head(k)) THEN DCont(T, Tail(k), c, nodot) ELSE {})

(***************************************************************************)
(* A rule set is a sequence of rules [n |-> name, pre |-> set of bytes, k] *)
(* whose language is "a byte of pre, then what continuation k matches";    *)
(* pre = {} stands for no leading byte.  A state is a set of pairs         *)
(* <<rule, continuation>>; the pair <<0, <<>>>> is the start.              *)
(***************************************************************************)
Start == {<<0, <<>>>>}

DRules(T, rules, st, c, nodot) ==
    UNION {IF x[1] = 0
           THEN UNION {IF rules[i].pre = {}
                       THEN {<<i, d>> : d \in DCont(T, rules[i].k, c, nodot)}
                       ELSE IF c \in rules[i].pre THEN {<<i, rules[i].k>>} ELSE {}
                       : i \in DOMAIN rules}
           ELSE {<<x[1], d>> : d \in DCont(T, x[2], c, nodot)}
           : x \in st}

\* The rules that accept in a state, in schema order
AcceptingRules(T, rules, st) ==
    {i \in DOMAIN rules :
        \/ \E x \in st : x[1] = i /\ NullCont(T, x[2])
        \/ <<0, <<>>>> \in st /\ rules[i].pre = {} /\ NullCont(T, rules[i].k)}

\* Names of rules `is`, in rule order, without repetition
NamesInOrder(rules, is) ==
    LET RECURSIVE Go(_, _)
        Go(i, acc) ==
            IF i > Len(rules) THEN acc
            ELSE Go(i + 1,
                    IF i \in is /\ \A j \in DOMAIN acc : acc[j] # rules[i].n
                    THEN Append(acc, rules[i].n) ELSE acc)
    IN Go(1, <<>>)

\* Bytes at which some node of T changes its mind: one representative per class of bytes
Boundaries(T) ==
    UNION {UNION {{T[i].r[j][1], T[i].r[j][2] + 1} : j \in DOMAIN T[i].r}
           : i \in {x \in DOMAIN T : T[x].t = "set"}}
=============================================================================
