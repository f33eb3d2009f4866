------------------------------ MODULE Symbols -------------------------------
(***************************************************************************)
(* Names and ids.  Every symbol of a parser, a variable of its schema or   *)
(* one of the library's own, has an id of its own for as long as the       *)
(* parser lives; the library's own have theirs fixed (SymbolId).  A rule   *)
(* `timestamp` is none: it stands for firstTimestamp and newLineTimestamp. *)
(*                                                                         *)
(* The user learns ids by asking for names and from the types of tokens;   *)
(* `known` is what has been learned.                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Own == << "$end", "$UncaughtString", "int", "float", "hex", "firstTimestamp", "newLineTimestamp", "newLine" >>
Reserved == {Own[i] : i \in DOMAIN Own}
Fixed == {<<Own[i], i - 1>> : i \in DOMAIN Own}

\* The symbols of a parser whose schema has these variables, in order
Names(vars) == Reserved \cup ({vars[i] : i \in DOMAIN vars} \ {"timestamp"})

\* Whether a pair goes with the pairs that are known
Consistent(known, x) == \A y \in known : (x[1] = y[1]) = (x[2] = y[2])

\* The id of a name ({}: there is none) and the name of that id
AskOk(vars, known, n, ids, back) ==
    IF n \in Names(vars)
    THEN \E id \in ids : ids = {id} /\ back = {n} /\ Consistent(known, <<n, id>>)
    ELSE ids = {} /\ back = {}
\* A token has the type id; its name is n
TypeOk(vars, known, n, id) == n \in Names(vars) /\ Consistent(known, <<n, id>>)
=============================================================================
