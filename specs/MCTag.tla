------------------------------- MODULE MCTag --------------------------------
(***************************************************************************)
(* What TagRegex's words mean, for the expressions of EXPRS and all words  *)
(* with up to n letters: captures nest, what is marked is not entered, all *)
(* captures are accounted for, and without the marks the words are those   *)
(* of the expression.                                                      *)
(***************************************************************************)
EXTENDS TagRegex, Matching, TLC, Json, IOUtils

Exprs == ndJsonDeserialize(IOEnv.EXPRS)

VARIABLES k, w, d, bytes, open, entered, marked
vars == <<k, w, d, bytes, open, entered, marked>>
E == Exprs[k]
Letters == {E.alphabet[i] : i \in DOMAIN E.alphabet} \cup {Open(i) : i \in 1..E.ncaps} \cup {Close(i) : i \in 1..E.ncaps}
             \cup {Neg(S) : S \in NegSets(E.T)}
Marked(x) == {i \in 1..E.ncaps : \E S \in NegSets(E.T) : x = Neg(S) /\ i \in S}

Init == \E i \in DOMAIN Exprs :
          /\ k = i /\ w = 0 /\ bytes = <<>> /\ open = <<>> /\ entered = {} /\ marked = {}
          /\ d = {<<Frame(Exprs[i].root)>>}
Next ==
    /\ w < E.n
    /\ \E x \in Letters :
         /\ d' = UNION {TCont(E.T, c, x) : c \in d}
         /\ d' # {}
         /\ w' = w + 1
         /\ bytes' = IF x < 256 THEN Append(bytes, x) ELSE bytes
         /\ open' = IF x \in 1000..1999 THEN Append(open, x - 1000)
                    ELSE IF x \in 2000..2999
                    THEN (IF open # <<>> /\ open[Len(open)] = x - 2000 THEN SubSeq(open, 1, Len(open) - 1) ELSE <<-1>>)
                    ELSE open
         /\ entered' = IF x \in 1000..1999 THEN entered \cup {x - 1000} ELSE entered
         /\ marked' = IF x >= 3000 THEN marked \cup Marked(x) ELSE marked
    /\ UNCHANGED k
Spec == Init /\ [][Next]_vars

Complete == \E c \in d : TNullCont(E.T, c)
\* the last capture entered is the first one left, and none stays open
Nested == open # <<-1>> /\ (Complete => open = <<>>)
Accounted == Complete => entered \cup marked = Caps(E.T, E.root)
\* without repetition a capture is either entered or marked
Disjoint == (Complete /\ E.once) => entered \cap marked = {}
\* leaving the marks aside, the language of the expression
Projects == Complete => Len(bytes) + 1 \in Ends(E.T, E.root, bytes, 1, {})
=============================================================================
