------------------------------ MODULE TagRegex ------------------------------
(***************************************************************************)
(* Expressions with named captures as languages over bytes and marks.  A   *)
(* match enters a capture (Open), leaves it (Close), and where it takes    *)
(* one alternative it then marks the captures of the other as unmatched    *)
(* (Neg).  Leaving out an optional part is an alternative, too.            *)
(*                                                                         *)
(* A letter is a number: a byte, 1000+i and 2000+i open and close capture  *)
(* i, 3000+mask marks a set of captures.  A continuation is a sequence of  *)
(* frames <<node, lo, hi>> as in Regex, or <<0, letter, 0>>: this letter.  *)
(* Capture nodes carry the number of their name in field i.                *)
(***************************************************************************)
EXTENDS Regex

RECURSIVE Pow2(_)
Pow2(i) == IF i = 0 THEN 1 ELSE 2 * Pow2(i - 1)
Open(i) == 1000 + i
Close(i) == 2000 + i
RECURSIVE Mask(_)
Mask(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN Pow2(x) + Mask(S \ {x})
Neg(S) == 3000 + Mask(S)
One(letter) == <<0, letter, 0>>

RECURSIVE Caps(_, _)
Caps(T, n) ==
    LET nd == T[n] IN
    CASE nd.t \in {"eps", "set", "dot"} -> {}
      [] nd.t \in {"cat", "or"} -> Caps(T, nd.a) \cup Caps(T, nd.b)
      [] nd.t = "rep" -> Caps(T, nd.a)
      [] nd.t = "cap" -> {nd.i} \cup Caps(T, nd.a)

Mark(S) == IF S = {} THEN <<>> ELSE <<One(Neg(S))>>
\* One alternative of an alternation, with the marks for the other
Alt(T, a, other) == <<Frame(a)>> \o Mark(Caps(T, other))

RECURSIVE TNull(_, _), TNullFrame(_, _), TNullCont(_, _)
TNull(T, n) ==
    LET nd == T[n] IN
    CASE nd.t = "eps" -> TRUE
      [] nd.t \in {"set", "dot", "cap"} -> FALSE
      [] nd.t = "cat" -> TNull(T, nd.a) /\ TNull(T, nd.b)
      [] nd.t = "or" -> TNullCont(T, Alt(T, nd.a, nd.b)) \/ TNullCont(T, Alt(T, nd.b, nd.a))
      [] nd.t = "rep" -> TNull(T, nd.a) \/ (nd.lo = 0 /\ Caps(T, nd.a) = {})
TNullFrame(T, f) == f[1] # 0 /\ (f[2] = 0 \/ TNull(T, f[1]))
TNullCont(T, c) == \A i \in DOMAIN c : TNullFrame(T, c[i])

RECURSIVE TNode(_, _, _), TFrame(_, _, _), TCont(_, _, _)
TNode(T, n, x) ==
    LET nd == T[n] IN
    CASE nd.t = "eps" -> {}
      [] nd.t \in {"set", "dot"} -> IF x < 256 /\ ByteIn(nd, x, {}) THEN {<<>>} ELSE {}
      [] nd.t = "cat" -> TCont(T, <<Frame(nd.a), Frame(nd.b)>>, x)
      [] nd.t = "or" -> TCont(T, Alt(T, nd.a, nd.b), x) \cup TCont(T, Alt(T, nd.b, nd.a), x)
      [] nd.t = "rep" ->
           \* at least once, or not at all
           TFrame(T, <<nd.a, IF nd.lo = 0 THEN 1 ELSE nd.lo, nd.hi>>, x)
             \cup (IF nd.lo = 0 THEN TCont(T, Mark(Caps(T, nd.a)), x) ELSE {})
      [] nd.t = "cap" -> TCont(T, <<One(Open(nd.i)), Frame(nd.a), One(Close(nd.i))>>, x)
TFrame(T, f, x) ==
    IF f[1] = 0 THEN (IF f[2] = x THEN {<<>>} ELSE {})
    ELSE IF f[3] = 0 THEN {}
    ELSE LET lo == IF f[2] = 0 THEN 0 ELSE f[2] - 1
             hi == IF f[3] = -1 THEN -1 ELSE f[3] - 1
             rest == IF hi = 0 THEN <<>> ELSE <<<<f[1], lo, hi>>>>
         IN {c \o rest : c \in TNode(T, f[1], x)}
TCont(T, c, x) ==
    IF c = <<>> THEN {}
    ELSE {d \o Tail(c) : d \in TFrame(T, Head(c), x)}
           \cup (IF TNullFrame(T, Head(c)) THEN TCont(T, Tail(c), x) ELSE {})

\* All the sets of captures that some alternation of T marks
NegSets(T) ==
    UNION {IF T[i].t = "or" THEN {Caps(T, T[i].a), Caps(T, T[i].b)}
           ELSE IF T[i].t = "rep" /\ T[i].lo = 0 THEN {Caps(T, T[i].a)} ELSE {} : i \in DOMAIN T} \ {{}}
=============================================================================
