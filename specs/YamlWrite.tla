------------------------------ MODULE YamlWrite -------------------------------
(***************************************************************************)
(* Writing a tree as a document under the layout options                   *)
(*   ind    blanks per map level (at least 2)                              *)
(*   max    one-line texts longer than this are folded (0: never)          *)
(*   seqnl  a map that is a list item starts on a line of its own          *)
(*   mapnl  a text that is a map value starts on a line of its own         *)
(* and what a written tree means (Norm): entries that hold nothing are     *)
(* left out.                                                               *)
(***************************************************************************)
EXTENDS YamlRead

RECURSIVE Norm(_)
Norm(n) ==
    LET keep == SelectSeq([i \in 1..Len(n.c) |-> i], LAMBDA i : n.c[i].t # "n")
        cs == [j \in 1..Len(keep) |-> Norm(n.c[keep[j]])] IN
    IF n.t = "q" THEN List(cs)
    ELSE IF n.t = "m" THEN Map([j \in 1..Len(keep) |-> n.k[keep[j]]], cs)
    ELSE n

\* ---------------------------------------------- what a document can hold
\* (a reader drops what follows '#' on a line that is not cited, and leading
\* and blank-only lines of literal texts are lost)
NoneOf(s, set) == FindIn(s, set, 1) = 0
TextChars == Printable \cup {NL}
IsLiteral(v) == ~NoneOf(v, {NL, "\"", "\\"})
Storable(v) ==
    /\ FindOut(v, TextChars, 1) = 0
    /\ IsLiteral(v) =>
        /\ NoneOf(v, {"#"})
        /\ LET ls == Split(v, "\n") IN
           \A i \in 1..Len(ls) :
              /\ ls[i] # "" => ~StartsWith(ls[i], "\t") /\ FindOut(ls[i], Blank, 1) # 0
                               /\ LET f == FindOut(ls[i], {" "}, 1) IN f # 0 /\ Ch(ls[i], f) # "\t"
              /\ i = 1 => ls[i] # "" /\ Ch(ls[i], 1) # " "
              /\ (i = Len(ls) - 1 /\ ls[Len(ls)] = "") => ls[i] # ""
StorableKey(k) == FindOut(k, Printable, 1) = 0 /\ (k # "" => Ch(k, Len(k)) # "\\")

RECURSIVE StorableTree(_)
StorableTree(n) ==
    CASE n.t = "n" -> TRUE
      [] n.t = "s" -> Storable(n.v)
      [] OTHER -> /\ \E i \in 1..Len(n.c) : n.c[i].t # "n"
                  /\ \A i \in 1..Len(n.k) : StorableKey(n.k[i])
                  /\ \A i \in 1..Len(n.c) : StorableTree(n.c[i])

\* ----------------------------------------------------------------- writing
BlankAt(s, i) == i < 1 \/ i > Len(s) \/ Ch(s, i) \in Blank
Special == {Ch("\":{}[],&*#?|-<>=!%@'", i) : i \in 1..20}
Cite(s) == ~NoneOf(s, Special) \/ s = "" \/ BlankAt(s, 1) \/ BlankAt(s, Len(s)) \/ s = "..."

RECURSIVE Escape(_, _)
Escape(s, i) == IF i > Len(s) THEN ""
                ELSE (IF Ch(s, i) \in {"\\", "\""} THEN "\\" ELSE "") \o Ch(s, i) \o Escape(s, i + 1)
KeyText(k) == LET e == Escape(k, 1) IN IF Cite(e) THEN "\"" \o e \o "\"" ELSE e

\* Folding: break at the first single blank at or after max characters.
RECURSIVE BreakAt(_, _)
BreakAt(s, i) ==
    LET p == FindIn(s, {" "}, i) IN
    IF p = 0 THEN 0 ELSE IF BlankAt(s, p - 1) \/ BlankAt(s, p + 1) THEN BreakAt(s, p + 1) ELSE p
RECURSIVE Fold(_, _)
Fold(s, max) ==
    LET p == IF max < Len(s) THEN BreakAt(s, max + 1) ELSE 0 IN
    IF p = 0 THEN (IF s = "" THEN <<>> ELSE <<s>>) ELSE <<Upto(s, p - 1)>> \o Fold(From(s, p + 1), max)

\* use: the line at hand is new, so that the indentation has to be written.
RECURSIVE Out(_, _, _, _)
RECURSIVE OutItems(_, _, _, _)
RECURSIVE OutKeys(_, _, _, _, _)
BlockLines(ls, lv) == Join([i \in 1..Len(ls) |-> Spaces(lv) \o ls[i] \o NL], "")

OutText(v, use, level, c) ==
    LET lead == IF use THEN Spaces(level) ELSE ""
        lv == IF level > 0 THEN level ELSE c.ind
        ls == Split(v, "\n")
        end == Len(ls) > 1 /\ ls[Len(ls)] = ""
        fl == Fold(v, c.max) IN
    IF v = "" THEN NL
    ELSE IF IsLiteral(v)
         THEN lead \o "|" \o (IF end THEN "" ELSE "-") \o NL \o BlockLines(IF end THEN SubSeq(ls, 1, Len(ls) - 1) ELSE ls, lv)
    ELSE IF c.max = 0 \/ Len(v) <= c.max \/ ~NoneOf(v, {"#"}) \/ BlankAt(v, 1) \/ BlankAt(v, Len(v)) \/ Len(fl) = 1
         THEN lead \o (IF Cite(v) THEN "\"" \o v \o "\"" ELSE v) \o NL
    ELSE lead \o ">-" \o NL \o BlockLines(fl, lv)

Out(n, use, level, c) ==
    CASE n.t = "q" -> OutItems(n, 1, level, c)
      [] n.t = "m" -> OutKeys(n, 1, use, level, c)
      [] n.t = "s" -> OutText(n.v, use, level, c)
      [] OTHER -> ""
OutItems(n, i, level, c) ==
    IF i > Len(n.c) THEN ""
    ELSE LET x == n.c[i]
             nl == x.t = "q" \/ (x.t = "m" /\ c.seqnl) IN
         (IF x.t = "n" THEN "" ELSE Spaces(level) \o "- " \o (IF nl THEN NL ELSE "") \o Out(x, nl, level + 2, c))
         \o OutItems(n, i + 1, level, c)
OutKeys(n, i, use, level, c) ==
    IF i > Len(n.c) THEN ""
    ELSE LET x == n.c[i]
             nl == x.t # "s" \/ c.mapnl IN
         IF x.t = "n" THEN OutKeys(n, i + 1, use, level, c)
         ELSE (IF use THEN Spaces(level) ELSE "") \o KeyText(n.k[i]) \o ": " \o (IF nl THEN NL ELSE "")
              \o Out(x, nl, level + c.ind, c) \o OutKeys(n, i + 1, TRUE, level, c)

Write(n, c) == Out(n, FALSE, 0, c)

\* ------------------------------------------------------------------ layout
\* Where the items, keys and texts of a document stand, and which texts are
\* blocks: all a layout option may decide.
Shape(text) ==
    LET a == ReadLines(Split(text, "\n"), 1)
        b == Classify(<<>>, a.lines) IN
    IF ~a.ok \/ ~b.ok THEN <<>>
    ELSE LET first == SelectSeq([i \in 1..Len(b.lines) |-> i],
                                LAMBDA i : b.lines[i].t # "s" \/ i = 1 \/ b.lines[i - 1].t # "s") IN
         [j \in 1..Len(first) |->
            LET x == b.lines[first[j]] IN
            IF x.t = "s" THEN [no |-> x.no, t |-> Block(x.d).kind, o |-> 0] ELSE [no |-> x.no, t |-> x.t, o |-> x.o]]

\* An empty text alone is an empty document.
StorableDoc(n) == n # Leaf("") /\ StorableTree(n)
RoundTrip(n, c) ==
    StorableDoc(n) => LET o == Read(Write(n, c)) IN o.ok /\ o.tree = Norm(n)
=============================================================================
