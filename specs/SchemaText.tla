----------------------------- MODULE SchemaText -----------------------------
(***************************************************************************)
(* The language of schema files: a machine that reads a text byte by byte  *)
(* and builds its delimiters and variables, whose patterns are node tables *)
(* of Regex.tla, or stops at the first byte with which the text is no      *)
(* longer the beginning of a schema.                                       *)
(*                                                                         *)
(* A line is empty (but not the first one), a comment `// text', a rule    *)
(* `name: pattern', or `delimiters: characters'.  A pattern is a sequence  *)
(* of alternations X|L|L...; X is a literal, `.', \d, \s or a bracket      *)
(* expression, possibly repeated, each L is a literal.  A literal is a     *)
(* character, an escaped character or a pattern in parentheses, which may  *)
(* be a named capture.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Digit(b) == 48 <= b /\ b <= 57
Alnum(b) == Digit(b) \/ (65 <= b /\ b <= 90) \/ (97 <= b /\ b <= 122)
\* characters that stand for themselves:  space ! " # $ % & ' , / : ; = @ _ ` ~ and alphanumeric ones
Plain(b) == Alnum(b) \/ b \in {32, 33, 34, 35, 36, 37, 38, 39, 44, 47, 58, 59, 61, 64, 95, 96, 126}
Special == {40, 41, 42, 43, 45, 46, 91, 93, 92, 94, 123, 125, 124, 60, 62, 63}
Blank == <<[b |-> 116, c |-> 9], [b |-> 110, c |-> 10], [b |-> 118, c |-> 11], [b |-> 102, c |-> 12], [b |-> 114, c |-> 13]>>
\* the character that backslash and b stand for, -1 if none
Escaped(b) == IF b \in Special THEN b
              ELSE IF \E i \in DOMAIN Blank : Blank[i].b = b
                   THEN Blank[CHOOSE i \in DOMAIN Blank : Blank[i].b = b].c
                   ELSE -1
Keyword == <<100, 101, 108, 105, 109, 105, 116, 101, 114, 115>>
End == -1      \* what follows the last byte
Key == -2      \* "delimiters", which is one symbol wherever it occurs
Whitespace == <<<<9, 13>>, <<32, 32>>>>

Bracket0 == [neg |-> FALSE, r |-> <<>>, last |-> -1]
Fresh == [ok |-> "go",        \* "go", "done", "syntax", "meaning", "either"
          at |-> 0,           \* where it stopped
          skip |-> 0,         \* bytes that belong to the keyword being read
          line |-> 1,
          m |-> "first",      \* what is expected
          wrong |-> FALSE,    \* well-formed so far, but without a meaning
          id |-> <<>>, ln |-> 0,
          cat |-> 0,          \* node of the finished part of the pattern, 0: none
          or |-> 0,           \* node of its last part
          br |-> Bracket0,    \* the bracket expression being read
          site |-> "atom",    \* what the literal being read will be
          num |-> <<>>,       \* the counts being read
          stack |-> <<>>,     \* what surrounds the parentheses being read
          T |-> <<>>,         \* nodes
          vars |-> <<>>, delims |-> <<>>, dl |-> <<>>]

-----------------------------------------------------------------------------
Node(st, n) == [st EXCEPT !.T = Append(@, n)]
Char(c) == [t |-> "set", neg |-> FALSE, r |-> <<<<c, c>>>>, lit |-> TRUE]
Set(neg, r) == [t |-> "set", neg |-> neg, r |-> r, lit |-> FALSE]

\* The number of the node that stands for the whole of the pattern so far
Whole(st) == IF st.cat = 0 THEN st
             ELSE [Node(st, [t |-> "cat", a |-> st.cat, b |-> st.or, lit |-> FALSE])
                     EXCEPT !.or = Len(st.T) + 1, !.cat = 0]

\* A new part of the pattern, the last node of the table
NewPart(st, m) ==
    LET n == Len(st.T)
        s == IF st.or = 0 THEN st
             ELSE IF st.cat = 0 THEN [st EXCEPT !.cat = st.or]
             ELSE [Node(st, [t |-> "cat", a |-> st.cat, b |-> st.or, lit |-> FALSE]) EXCEPT !.cat = n + 1]
    IN [s EXCEPT !.or = n, !.m = m]

Replace(st, node, m) == [Node(st, node) EXCEPT !.or = Len(st.T) + 1, !.m = m]

\* The literal of node n is complete
Literal(st, n) ==
    LET isChar == st.T[n].lit
        c == IF isChar THEN st.T[n].r[1][1] ELSE -1
    IN CASE st.site = "atom" ->
              LET s == IF st.or = 0 THEN st
                       ELSE IF st.cat = 0 THEN [st EXCEPT !.cat = st.or]
                       ELSE [Node(st, [t |-> "cat", a |-> st.cat, b |-> st.or, lit |-> FALSE])
                               EXCEPT !.cat = Len(st.T) + 1]
              IN [s EXCEPT !.or = n, !.m = "post"]
         [] st.site = "alt" ->
              Replace(st, [t |-> "or", a |-> st.or, b |-> n, lit |-> FALSE], "part")
         [] st.site = "elem" ->
              [st EXCEPT !.br.r = Append(@, <<c, c>>), !.br.last = c, !.m = "brlit"]
         [] st.site = "to" ->
              [st EXCEPT !.br.r = [@ EXCEPT ![Len(@)] = <<st.br.last, c>>], !.m = "br",
                         !.wrong = @ \/ c = -1 \/ st.br.last = -1 \/ c < st.br.last]
         [] st.site = "delim" ->
              [st EXCEPT !.dl = Append(@, c), !.m = "delims", !.wrong = @ \/ ~isChar]

NewLiteral(st, site, c) == Literal([Node(st, Char(c)) EXCEPT !.site = site], Len(st.T) + 1)

\* Parentheses
Open(st, site) ==
    [st EXCEPT !.stack = Append(@, [site |-> site, cat |-> st.cat, or |-> st.or, br |-> st.br, cap |-> <<>>]),
               !.cat = 0, !.or = 0, !.br = Bracket0, !.m = "open"]
Close(st) ==
    LET w == Whole(st)
        f == st.stack[Len(st.stack)]
        s == IF f.cap = <<>> THEN w
             ELSE [Node(w, [t |-> "cap", a |-> w.or, n |-> f.cap, lit |-> FALSE]) EXCEPT !.or = Len(w.T) + 1]
        u == [s EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1), !.cat = f.cat, !.or = f.or, !.br = f.br, !.site = f.site]
    IN Literal(u, s.or)

\* The end of a line
Finish(st, m) ==
    CASE st.m \in {"post", "part"} ->
           LET w == Whole(st)
           IN [w EXCEPT !.vars = Append(@, [n |-> st.id, l |-> st.ln, root |-> w.or]),
                        !.cat = 0, !.or = 0, !.id = <<>>, !.m = m]
      [] st.m = "delims" -> [st EXCEPT !.delims = Append(@, st.dl), !.dl = <<>>, !.m = m]
      [] OTHER -> [st EXCEPT !.m = m]

Count(digits) == LET RECURSIVE Go(_, _)
                     Go(i, acc) == IF i > Len(digits) THEN acc ELSE Go(i + 1, IF acc > 1000000 THEN acc ELSE 10 * acc + digits[i])
                 IN Go(1, 0)
Repeat(st, lo, hi) ==
    IF hi = 0 THEN Replace(st, [t |-> "eps", lit |-> FALSE], "part")
    ELSE Replace(st, [t |-> "rep", a |-> st.or, lo |-> lo, hi |-> hi, lit |-> FALSE], "part")

-----------------------------------------------------------------------------
(* What the machine does on symbol b (a byte, Key or End) in mode st.m;     *)
(* m = "!" says that b is not possible here.                                *)

No(st) == [st EXCEPT !.m = "!"]
To(st, m) == [st EXCEPT !.m = m]
NewLine(st) == [st EXCEPT !.m = "line", !.line = @ + 1]

LiteralStart(b) == Plain(b) \/ b = 40 \/ b = 92
BeginLiteral(st, site, b) ==
    IF Plain(b) THEN NewLiteral(st, site, b)
    ELSE IF b = 40 THEN Open(st, site)
    ELSE IF b = 92 THEN [st EXCEPT !.site = site, !.m = "escape"]
    ELSE No(st)
BeginPart(st, b) ==
    IF b = 46 THEN NewPart(Node(st, [t |-> "dot", lit |-> FALSE]), "post")
    ELSE IF b = 91 THEN [st EXCEPT !.br = Bracket0, !.m = "bropen"]
    ELSE BeginLiteral(st, "atom", b)

EndOfLine(st, b) ==
    CASE b = 10 -> NewLine(Finish(st, "line"))
      [] b = 13 -> Finish(st, "cr")
      [] b = End -> [Finish(st, "line") EXCEPT !.ok = "done"]

React(st, b) ==
    CASE st.m = "first" /\ b \in {10, 13, End} -> No(st)
      [] st.m \in {"first", "line"} ->
           CASE b \in {10, 13, End} -> EndOfLine(st, b)
             [] b = 47 -> To(st, "slash")
             [] b = 32 -> To(st, "indent")
             [] b = Key -> To(st, "dcolon")
             [] Alnum(b) -> [st EXCEPT !.id = <<b>>, !.m = "name"]
             [] OTHER -> No(st)
      [] st.m = "cr" -> IF b = 10 THEN NewLine(st) ELSE No(st)
      [] st.m = "slash" -> IF b = 47 THEN To(st, "comment0") ELSE No(st)
      [] st.m = "comment0" -> IF b \in {10, 13, End} THEN No(st) ELSE To(st, "comment")
      [] st.m = "comment" -> IF b \in {10, 13, End} THEN EndOfLine(st, b) ELSE st
      [] st.m = "indent" -> IF b = 32 THEN st
                            ELSE IF Alnum(b) THEN [st EXCEPT !.id = <<b>>, !.m = "name"] ELSE No(st)
      [] st.m = "name" -> IF Alnum(b) THEN [st EXCEPT !.id = Append(@, b)]
                          ELSE IF b = 58 THEN [st EXCEPT !.ln = st.line, !.m = "pattern"] ELSE No(st)
      [] st.m = "dcolon" -> IF b = 58 THEN To(st, "delims0") ELSE No(st)
      [] st.m = "delims0" -> BeginLiteral(st, "delim", b)
      [] st.m = "delims" -> IF b \in {10, 13, End} THEN EndOfLine(st, b) ELSE BeginLiteral(st, "delim", b)
      \* patterns
      [] st.m = "pattern" -> BeginPart(st, b)
      [] st.m \in {"post", "part"} ->
           CASE b \in {10, 13, End} -> IF st.stack = <<>> THEN EndOfLine(st, b) ELSE No(st)
             [] b = 41 -> IF st.stack = <<>> THEN No(st) ELSE Close(st)
             [] b = 124 -> To(st, "bar")
             [] b = 42 -> IF st.m = "post" THEN Repeat(st, 0, -1) ELSE No(st)
             [] b = 43 -> IF st.m = "post" THEN Repeat(st, 1, -1) ELSE No(st)
             [] b = 123 -> IF st.m = "post" THEN [st EXCEPT !.num = <<<<>>>>, !.m = "count0"] ELSE No(st)
             [] OTHER -> BeginPart(st, b)
      [] st.m = "bar" -> BeginLiteral(st, "alt", b)
      [] st.m \in {"count0", "count"} ->
           CASE Digit(b) -> [st EXCEPT !.num[Len(st.num)] = Append(@, b - 48), !.m = "count"]
             [] b = 44 /\ st.m = "count" /\ Len(st.num) = 1 -> [st EXCEPT !.num = Append(@, <<>>), !.m = "count0"]
             [] b = 125 /\ st.m = "count" ->
                  LET lo == Count(st.num[1])
                      hi == IF Len(st.num) = 2 THEN Count(st.num[2]) ELSE lo
                  IN IF hi < lo THEN [st EXCEPT !.wrong = TRUE, !.m = "part"] ELSE Repeat(st, lo, hi)
             [] OTHER -> No(st)
      [] st.m = "escape" ->
           CASE Escaped(b) # -1 -> NewLiteral(st, st.site, Escaped(b))
             [] b = 100 /\ st.site = "atom" -> NewPart(Node(st, Set(FALSE, <<<<48, 57>>>>)), "post")
             [] b = 115 /\ st.site = "atom" -> NewPart(Node(st, Set(FALSE, Whitespace)), "post")
             [] b = 100 /\ st.site = "elem" -> [st EXCEPT !.br.r = Append(@, <<48, 57>>), !.m = "br"]
             [] b = 115 /\ st.site = "elem" -> [st EXCEPT !.br.r = @ \o Whitespace, !.m = "br"]
             [] OTHER -> No(st)
      [] st.m = "open" -> IF b = 63 THEN To(st, "angle") ELSE BeginPart(st, b)
      [] st.m = "angle" -> IF b = 60 THEN To(st, "capture0") ELSE No(st)
      [] st.m \in {"capture0", "capture"} ->
           IF Alnum(b) THEN [st EXCEPT !.stack[Len(st.stack)].cap = Append(@, b), !.m = "capture"]
           ELSE IF b = 62 /\ st.m = "capture" THEN To(st, "pattern") ELSE No(st)
      \* bracket expressions
      [] st.m = "bropen" /\ b = 94 -> [st EXCEPT !.br.neg = TRUE, !.m = "br"]
      [] st.m = "brlit" /\ b = 45 -> To(st, "brto")
      [] st.m \in {"br", "brlit"} /\ b = 93 -> NewPart(Node(st, Set(st.br.neg, st.br.r)), "post")
      [] st.m \in {"bropen", "br", "brlit"} -> BeginLiteral(st, "elem", b)
      [] st.m = "brto" -> BeginLiteral(st, "to", b)

\* An element of a bracket expression that is no character may yet turn out to begin an impossible range
Meaningless(st, b) == st.wrong \/ (st.m = "brlit" /\ st.br.last = -1 /\ b # 45)

Read(st, b, i) ==
    LET s == React(st, b) IN
    IF Meaningless(st, b) THEN [st EXCEPT !.ok = IF s.m = "!" THEN "either" ELSE "meaning", !.at = i]
    ELSE IF s.m = "!" THEN [st EXCEPT !.ok = "syntax", !.at = i]
    ELSE s

IsKey(text, i) == i + 9 <= Len(text) /\ SubSeq(text, i, i + 9) = Keyword

\* One byte more, the i-th of the text, or the end
Step(st, text, i) ==
    IF st.ok # "go" THEN st
    ELSE IF i > Len(text) THEN Read(st, End, i)
    ELSE IF st.skip > 0 THEN [st EXCEPT !.skip = @ - 1]
    ELSE IF text[i] = 100 /\ IsKey(text, i) THEN Read([st EXCEPT !.skip = 9], Key, i)
    ELSE Read(st, text[i], i)

RECURSIVE ParseFrom(_, _, _)
ParseFrom(st, text, i) == IF i > Len(text) + 1 \/ st.ok # "go" THEN st ELSE ParseFrom(Step(st, text, i), text, i + 1)
Parse(text) == ParseFrom(Fresh, text, 1)

\* Where in the text offset i is
Breaks(text, i) == {j \in 1..i - 1 : text[j] = 10}
Line(text, i) == 1 + Cardinality(Breaks(text, i))
Column(text, i) == IF Breaks(text, i) = {} THEN i
                   ELSE i - (CHOOSE j \in Breaks(text, i) : \A h \in Breaks(text, i) : h <= j)
=============================================================================
