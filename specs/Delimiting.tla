----------------------------- MODULE Delimiting -----------------------------
(***************************************************************************)
(* Which schemas a parser can be built from: there is a rule for the       *)
(* delimiters, of which the last one counts, and no variable other than a  *)
(* timestamp can match a delimiter.  `.' stands for the other characters.  *)
(***************************************************************************)
EXTENDS Rules

\* Some node of n, matched or not, is for byte c
RECURSIVE Reads(_, _, _, _)
Reads(T, n, c, nodot) ==
    LET nd == T[n] IN
    CASE nd.t = "eps" -> FALSE
      [] nd.t \in {"set", "dot"} -> ByteIn(nd, c, nodot)
      [] nd.t \in {"cat", "or"} -> Reads(T, nd.a, c, nodot) \/ Reads(T, nd.b, c, nodot)
      [] nd.t \in {"rep", "cap"} -> Reads(T, nd.a, c, nodot)

\* n matches something
RECURSIVE Matchable(_, _, _)
Matchable(T, n, nodot) ==
    LET nd == T[n] IN
    CASE nd.t = "eps" -> TRUE
      [] nd.t \in {"set", "dot"} -> \E c \in 0..255 : ByteIn(nd, c, nodot)
      [] nd.t = "cat" -> Matchable(T, nd.a, nodot) /\ Matchable(T, nd.b, nodot)
      [] nd.t = "or" -> Matchable(T, nd.a, nodot) \/ Matchable(T, nd.b, nodot)
      [] nd.t = "rep" -> nd.lo = 0 \/ Matchable(T, nd.a, nodot)
      [] nd.t = "cap" -> Matchable(T, nd.a, nodot)

\* n matches something with byte c in it
RECURSIVE Contains(_, _, _, _)
Contains(T, n, c, nodot) ==
    LET nd == T[n] IN
    CASE nd.t = "eps" -> FALSE
      [] nd.t \in {"set", "dot"} -> ByteIn(nd, c, nodot)
      [] nd.t = "cat" -> \/ Contains(T, nd.a, c, nodot) /\ Matchable(T, nd.b, nodot)
                         \/ Contains(T, nd.b, c, nodot) /\ Matchable(T, nd.a, nodot)
      [] nd.t = "or" -> Contains(T, nd.a, c, nodot) \/ Contains(T, nd.b, c, nodot)
      [] nd.t = "rep" -> nd.hi # 0 /\ Contains(T, nd.a, c, nodot)
      [] nd.t = "cap" -> Contains(T, nd.a, c, nodot)

-----------------------------------------------------------------------------
Stamp == <<116, 105, 109, 101, 115, 116, 97, 109, 112>>      \* "timestamp"

\* sch: [delims |-> <<<<bytes>>s>>, T, vars |-> <<[n |-> bytes, l |-> line, root]>>]
Delims(sch) == IF sch.delims = <<>> THEN {}
               ELSE LET d == sch.delims[Len(sch.delims)] IN {d[i] : i \in DOMAIN d}
\* (SOF can't be written in a schema to exclude it)
Inner(sch) == Delims(sch) \ {SOF}
Checked(sch) == {i \in DOMAIN sch.vars : sch.vars[i].n # Stamp}

Must(sch) == \/ Delims(sch) = {}
             \/ \E i \in Checked(sch), d \in Inner(sch) : Contains(sch.T, sch.vars[i].root, d, Delims(sch))
\* a pattern may be refused for a part that is never matched
May(sch) == \/ Delims(sch) = {}
            \/ \E i \in Checked(sch), d \in Inner(sch) : Reads(sch.T, sch.vars[i].root, d, Delims(sch))

Within(p, s) == \E i \in 0..Len(s) - Len(p) : SubSeq(s, i + 1, i + Len(p)) = p
Digits(n) == LET RECURSIVE Go(_)
                 Go(x) == IF x < 10 THEN <<48 + x>> ELSE Append(Go(x \div 10), 48 + (x % 10))
             IN Go(n)
\* The message names a variable, its line and a delimiter in it
Says(sch, msg) ==
    \/ Delims(sch) = {}
    \/ \E i \in Checked(sch), d \in Inner(sch) :
          /\ Reads(sch.T, sch.vars[i].root, d, Delims(sch))
          /\ Within(<<58>> \o Digits(sch.vars[i].l) \o <<58>>, msg)
          /\ Within(<<39>> \o sch.vars[i].n \o <<39>>, msg)
          /\ Within(<<39, d, 39>>, msg)
=============================================================================
