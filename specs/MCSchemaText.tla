--------------------------- MODULE MCSchemaText -----------------------------
(***************************************************************************)
(* SchemaText's machine against a declarative grammar of schemas and the   *)
(* declarative meaning of patterns, for all texts of up to N symbols from  *)
(* an alphabet, after a beginning; Key stands for the keyword.             *)
(***************************************************************************)
EXTENDS Matching, TLC, Json, IOUtils
CONSTANT N
Conf == ndJsonDeserialize(IOEnv.CONF)     \* begin, alphabet: sequences of symbols

S == INSTANCE SchemaText
Key == -2
Bytes(w) == LET RECURSIVE Go(_)
                Go(i) == IF i > Len(w) THEN <<>> ELSE (IF w[i] = Key THEN S!Keyword ELSE <<w[i]>>) \o Go(i + 1)
            IN Go(1)

-----------------------------------------------------------------------------
(* The grammar: what texts are *)
Sub(x, a, b) == SubSeq(x, a, b)
Last(x) == x[Len(x)]
AllAlnum(x) == x # <<>> /\ \A i \in DOMAIN x : S!Alnum(x[i])
Num(x) == x # <<>> /\ \A i \in DOMAIN x : S!Digit(x[i])
RECURSIVE IsLit(_), IsElems(_), IsPart(_), IsRegex(_)
IsCapture(x) == /\ Len(x) > 3 /\ x[1] = 63 /\ x[2] = 60
                /\ \E i \in 4..Len(x) - 1 : x[i] = 62 /\ AllAlnum(Sub(x, 3, i - 1)) /\ IsRegex(Sub(x, i + 1, Len(x)))
IsLit(x) == \/ Len(x) = 1 /\ S!Plain(x[1])
            \/ Len(x) = 2 /\ x[1] = 92 /\ S!Escaped(x[2]) # -1
            \/ /\ Len(x) > 2 /\ x[1] = 40 /\ Last(x) = 41
               /\ IsRegex(Sub(x, 2, Len(x) - 1)) \/ IsCapture(Sub(x, 2, Len(x) - 1))
IsRange(x) == \E i \in 2..Len(x) - 1 : x[i] = 45 /\ IsLit(Sub(x, 1, i - 1)) /\ IsLit(Sub(x, i + 1, Len(x)))
IsElem(x) == IsLit(x) \/ x \in {<<92, 100>>, <<92, 115>>} \/ IsRange(x)
IsElems(x) == IsElem(x) \/ \E i \in 1..Len(x) - 1 : IsElems(Sub(x, 1, i)) /\ IsElem(Sub(x, i + 1, Len(x)))
IsBracket(x) == /\ Len(x) > 2 /\ x[1] = 91 /\ Last(x) = 93
                /\ LET y == Sub(x, 2, Len(x) - 1) IN
                   IsElems(y) \/ (y[1] = 94 /\ (Len(y) = 1 \/ IsElems(Tail(y))))
IsAtom(x) == IsLit(x) \/ x \in {<<46>>, <<92, 100>>, <<92, 115>>} \/ IsBracket(x)
\* counts of a repetition: <<>> if x is none
Counts(x) ==
    IF x = <<>> THEN <<>>
    ELSE IF x = <<42>> THEN <<0, -1>>
    ELSE IF x = <<43>> THEN <<1, -1>>
    ELSE IF Len(x) < 3 \/ x[1] # 123 \/ Last(x) # 125 THEN <<>>
    ELSE LET y == Sub(x, 2, Len(x) - 1)
             digits(z) == [i \in DOMAIN z |-> z[i] - 48]
         IN IF Num(y) THEN <<S!Count(digits(y)), S!Count(digits(y))>>
            ELSE IF \E i \in 2..Len(y) - 1 : y[i] = 44 /\ Num(Sub(y, 1, i - 1)) /\ Num(Sub(y, i + 1, Len(y)))
                 THEN LET i == CHOOSE j \in DOMAIN y : y[j] = 44
                      IN <<S!Count(digits(Sub(y, 1, i - 1))), S!Count(digits(Sub(y, i + 1, Len(y))))>>
                 ELSE <<>>
IsPart(x) == \/ IsAtom(x)
             \/ \E i \in 1..Len(x) - 1 : Counts(Sub(x, i + 1, Len(x))) # <<>> /\ IsAtom(Sub(x, 1, i))
             \/ \E i \in 2..Len(x) - 1 : x[i] = 124 /\ IsPart(Sub(x, 1, i - 1)) /\ IsLit(Sub(x, i + 1, Len(x)))
IsRegex(x) == IsPart(x) \/ \E i \in 1..Len(x) - 1 : IsRegex(Sub(x, 1, i)) /\ IsPart(Sub(x, i + 1, Len(x)))

IsComment(x) == Len(x) > 2 /\ x[1] = 47 /\ x[2] = 47
NameAt(x) == CHOOSE i \in 1..Len(x) : x[i] # 32 /\ \A j \in 1..i - 1 : x[j] = 32
IsRule(x) == \E i \in DOMAIN x : /\ x[i] # 32 /\ \A j \in 1..i - 1 : x[j] = 32
                                 /\ \E h \in i + 1..Len(x) - 1 : /\ x[h] = 58 /\ AllAlnum(Sub(x, i, h - 1))
                                                                 /\ IsRegex(Sub(x, h + 1, Len(x)))
RECURSIVE IsDelims(_)
IsDelims(x) == IsLit(x) \/ \E i \in 1..Len(x) - 1 : IsDelims(Sub(x, 1, i)) /\ IsLit(Sub(x, i + 1, Len(x)))
IsLine(x) == x = <<>> \/ IsComment(x) \/ IsRule(x)
             \/ (Len(x) > 2 /\ x[1] = Key /\ x[2] = 58 /\ IsDelims(Sub(x, 3, Len(x))))
RECURSIVE LinesOf(_)
LinesOf(x) == IF \A i \in DOMAIN x : x[i] # 10 THEN <<x>>
              ELSE LET i == CHOOSE j \in DOMAIN x : x[j] = 10 /\ \A h \in 1..j - 1 : x[h] # 10
                       a == IF i > 1 /\ x[i - 1] = 13 THEN i - 2 ELSE i - 1
                   IN <<Sub(x, 1, a)>> \o LinesOf(Sub(x, i + 1, Len(x)))
IsSchema(x) == LET ls == LinesOf(x)
               IN /\ ls[1] # <<>>
                  /\ \A i \in DOMAIN ls : IsLine(ls[i]) /\ \A j \in DOMAIN ls[i] : ls[i][j] # 13

-----------------------------------------------------------------------------
(* The meaning: which texts have one, and which words y a pattern x matches *)
CharOf(x) == LET RECURSIVE Go(_)
                 Go(z) == IF Len(z) = 1 THEN (IF S!Plain(z[1]) THEN z[1] ELSE -1)
                          ELSE IF Len(z) = 2 /\ z[1] = 92 THEN S!Escaped(z[2])
                          ELSE IF Len(z) > 2 /\ z[1] = 40 /\ Last(z) = 41 THEN Go(Sub(z, 2, Len(z) - 1)) ELSE -1
             IN Go(x)
RECURSIVE MLit(_, _), MElems(_, _), MPart(_, _), MRegex(_, _), MTimes(_, _, _, _)
MLit(x, y) == \/ CharOf(x) # -1 /\ y = <<CharOf(x)>>
              \/ /\ Len(x) > 2 /\ x[1] = 40 /\ Last(x) = 41
                 /\ LET z == Sub(x, 2, Len(x) - 1) IN
                    \/ IsRegex(z) /\ MRegex(z, y)
                    \/ IsCapture(z) /\ \E i \in DOMAIN z : z[i] = 62 /\ AllAlnum(Sub(z, 3, i - 1)) /\ MRegex(Sub(z, i + 1, Len(z)), y)
MElem(x, c) == \/ CharOf(x) = c /\ CharOf(x) # -1
               \/ x = <<92, 100>> /\ S!Digit(c)
               \/ x = <<92, 115>> /\ c \in {9, 10, 11, 12, 13, 32}
               \/ \E i \in 2..Len(x) - 1 : /\ x[i] = 45 /\ IsLit(Sub(x, 1, i - 1)) /\ IsLit(Sub(x, i + 1, Len(x)))
                                           /\ CharOf(Sub(x, 1, i - 1)) <= c /\ c <= CharOf(Sub(x, i + 1, Len(x)))
MElems(x, c) == \/ IsElem(x) /\ MElem(x, c)
                \/ \E i \in 1..Len(x) - 1 : /\ IsElems(Sub(x, 1, i)) /\ IsElem(Sub(x, i + 1, Len(x)))
                                            /\ (MElems(Sub(x, 1, i), c) \/ MElem(Sub(x, i + 1, Len(x)), c))
MAtom(x, y) ==
    \/ IsLit(x) /\ MLit(x, y)
    \/ x = <<46>> /\ Len(y) = 1
    \/ x = <<92, 100>> /\ Len(y) = 1 /\ S!Digit(y[1])
    \/ x = <<92, 115>> /\ Len(y) = 1 /\ y[1] \in {9, 10, 11, 12, 13, 32}
    \/ IsBracket(x) /\ Len(y) = 1
         /\ LET z == Sub(x, 2, Len(x) - 1) IN
            IF z[1] = 94 THEN Len(z) = 1 \/ ~MElems(Tail(z), y[1]) ELSE MElems(z, y[1])
\* lo to hi times x
MTimes(x, lo, hi, y) ==
    \/ lo <= 0 /\ y = <<>>
    \/ /\ hi # 0
       /\ \/ lo > 0 /\ MAtom(x, <<>>) /\ MTimes(x, lo - 1, IF hi = -1 THEN -1 ELSE hi - 1, y)
          \/ \E i \in 1..Len(y) : /\ MAtom(x, Sub(y, 1, i))
                                  /\ MTimes(x, lo - 1, IF hi = -1 THEN -1 ELSE hi - 1, Sub(y, i + 1, Len(y)))
MPart(x, y) ==
    \/ IsAtom(x) /\ MAtom(x, y)
    \/ \E i \in 1..Len(x) - 1 : LET c == Counts(Sub(x, i + 1, Len(x))) IN
                                c # <<>> /\ IsAtom(Sub(x, 1, i)) /\ MTimes(Sub(x, 1, i), c[1], c[2], y)
    \/ \E i \in 2..Len(x) - 1 : /\ x[i] = 124 /\ IsPart(Sub(x, 1, i - 1)) /\ IsLit(Sub(x, i + 1, Len(x)))
                                /\ (MPart(Sub(x, 1, i - 1), y) \/ MLit(Sub(x, i + 1, Len(x)), y))
MRegex(x, y) ==
    \/ IsPart(x) /\ MPart(x, y)
    \/ \E i \in 1..Len(x) - 1 : /\ IsRegex(Sub(x, 1, i)) /\ IsPart(Sub(x, i + 1, Len(x)))
                                /\ \E j \in 0..Len(y) : MRegex(Sub(x, 1, i), Sub(y, 1, j))
                                                        /\ MPart(Sub(x, i + 1, Len(x)), Sub(y, j + 1, Len(y)))
\* no factor of x is a range or a repetition that is out of order, or an element that is no character
RECURSIVE IsEscaped(_, _)
IsEscaped(x, a) == a > 1 /\ x[a - 1] = 92 /\ ~IsEscaped(x, a - 1)
Sound(x) ==
    \A a \in DOMAIN x : \A b \in a..Len(x) :
        LET z == Sub(x, a, b) IN
        /\ (IsBracket(z) /\ ~IsEscaped(x, a) =>
               LET u == Sub(z, 2, Len(z) - 1)
                   v == IF u[1] = 94 THEN Tail(u) ELSE u
                   RECURSIVE Good(_)
                   Good(e) == \/ e = <<>>
                              \/ IsElem(e) /\ (\/ CharOf(e) # -1
                                               \/ e \in {<<92, 100>>, <<92, 115>>}
                                               \/ \E i \in 2..Len(e) - 1 :
                                                     /\ e[i] = 45
                                                     /\ CharOf(Sub(e, 1, i - 1)) # -1
                                                     /\ CharOf(Sub(e, 1, i - 1)) <= CharOf(Sub(e, i + 1, Len(e))))
                              \/ \E i \in 1..Len(e) - 1 : Good(Sub(e, 1, i)) /\ Good(Sub(e, i + 1, Len(e)))
               IN Good(v))
        /\ (z[1] = 123 /\ ~IsEscaped(x, a) /\ Counts(z) # <<>> => Counts(z)[1] <= Counts(z)[2])

-----------------------------------------------------------------------------
VARIABLES c,    \* the alphabet
          w,    \* symbols
          st    \* the machine after them, without the end
vars == <<c, w, st>>
Advance(s, x, text) == \* over the bytes of the last symbol
    LET n == Len(text)
        RECURSIVE Go(_, _)
        Go(u, i) == IF i > n THEN u ELSE Go(S!Step(u, text, i), i + 1)
    IN Go(s, n - x + 1)
Width(a) == IF a = Key THEN 10 ELSE 1
AtEnd == S!Step(st, Bytes(w), Len(Bytes(w)) + 1)

Init == \E i \in DOMAIN Conf :
           /\ c = i /\ w = Conf[i].begin
           /\ st = Advance(S!Fresh, Len(Bytes(Conf[i].begin)), Bytes(Conf[i].begin))
Next == /\ Len(w) < N + Len(Conf[c].begin) /\ st.ok = "go"
        /\ \E i \in DOMAIN Conf[c].alphabet :
              LET a == Conf[c].alphabet[i] IN
              /\ w' = Append(w, a)
              /\ st' = Advance(st, Width(a), Bytes(Append(w, a)))
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars

\* Some way to make a schema of what has been read so far
Completion ==
    LET close == [i \in 1..Len(st.stack) |-> 41]
        \* brackets around the parentheses being read, innermost last
        RECURSIVE Out(_)
        Out(i) == IF i = 0 THEN <<>>
                  ELSE (IF st.stack[i].site \in {"elem", "to"} THEN <<41, 93>> ELSE <<41>>) \o Out(i - 1)
        out == Out(Len(st.stack))
        lit == IF st.site \in {"elem", "to"} THEN <<93>> ELSE <<>>
    IN CASE st.m \in {"first", "indent"} -> <<97, 58, 97>>
         [] st.m \in {"line", "comment", "delims"} -> <<>>
         [] st.m = "cr" -> <<10>>
         [] st.m = "slash" -> <<47, 97>>
         [] st.m = "comment0" -> <<97>>
         [] st.m = "name" -> <<58, 97>>
         [] st.m = "dcolon" -> <<58, 97>>
         [] st.m = "delims0" -> <<97>>
         [] st.m \in {"pattern", "bar", "open"} -> <<97>> \o out
         [] st.m \in {"post", "part"} -> out
         [] st.m \in {"count0", "count"} -> <<57, 125>> \o out
         [] st.m = "escape" -> <<92>> \o lit \o out
         [] st.m = "angle" -> <<60, 97, 62, 97>> \o out
         [] st.m \in {"capture0", "capture"} -> <<97, 62, 97>> \o out
         [] st.m = "bropen" -> <<97, 93>> \o out
         [] st.m \in {"br", "brlit"} -> <<93>> \o out
         [] st.m = "brto" -> <<97, 93>> \o out

\* the machine accepts the schemas (those without a meaning, too)
SameTexts == st.ok = "go" => (IsSchema(w) = (AtEnd.ok = "done" \/ AtEnd.ok = "meaning"))
\* what it has not rejected is the beginning of one
Viable == st.ok = "go" => IsSchema(w \o Completion)
\* what it rejected is not
Alphabet == {Conf[c].alphabet[i] : i \in DOMAIN Conf[c].alphabet}
Dead == st.ok \in {"syntax"} => /\ ~IsSchema(w)
                                /\ \A a \in Alphabet : ~IsSchema(Append(w, a))
                                                       /\ \A b \in Alphabet : ~IsSchema(w \o <<a, b>>)
\* a pattern after "a:" on one line means what the declarative meaning says
Words == UNION {[1..n -> {97, 49}] : n \in 0..2} \cup {<<98>>, <<32>>}
Pattern == Sub(w, 3, Len(w))
SameMeaning ==
    (st.ok = "go" /\ AtEnd.ok \in {"done", "meaning"} /\ Len(w) > 2 /\ w[1] = 97 /\ w[2] = 58 /\ \A i \in DOMAIN w : w[i] # 10) =>
        /\ (AtEnd.ok = "done") = Sound(Pattern)
        /\ AtEnd.ok = "done" =>
              \A y \in Words : MRegex(Pattern, y) = (Len(y) + 1 \in Ends(AtEnd.T, AtEnd.vars[1].root, y, 1, {}))
\* delimiters are characters
RECURSIVE Chars(_)
Chars(x) == CharOf(x) # -1 \/ \E i \in 1..Len(x) - 1 : Chars(Sub(x, 1, i)) /\ CharOf(Sub(x, i + 1, Len(x))) # -1
SameDelims ==
    (st.ok = "go" /\ AtEnd.ok \in {"done", "meaning"} /\ Len(w) > 2 /\ w[1] = Key /\ \A i \in DOMAIN w : w[i] # 10) =>
        (AtEnd.ok = "done") = Chars(Sub(w, 3, Len(w)))
=============================================================================
