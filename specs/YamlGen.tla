------------------------------- MODULE YamlGen --------------------------------
(***************************************************************************)
(* Writing a YAML document piece by piece, with every freedom of layout    *)
(* the format gives, together with the tree the document denotes.          *)
(* This says what documents mean without saying how they are read; that    *)
(* YamlRead reads all of them as meant is checked as an invariant (Agree), *)
(* and the documents are replayed into the real parser.                    *)
(***************************************************************************)
EXTENDS YamlRead
CONSTANTS MaxEntries, MaxDepth,
          Keys,       \* set of [text, key]: how a key is written and what it is
          Words,      \* plain one-line texts
          Cited,      \* set of [text, value]: quoted texts
          Styles,     \* which ways of writing a leaf are used
          Steps,      \* indentation steps of nested blocks
          Gaps,       \* blanks between a key and its colon
          Noise,      \* lines that may stand between entries
          Tails,      \* what may follow a value or a key on its line
          Wraps,      \* what may surround a document
          Pick(_)     \* the choices looked at: all of a set, or one at random

VARIABLES lines, pend, stack, tree, entries
vars == <<lines, pend, stack, tree, entries>>

\* A frame is an open container: path to it, kind "m"/"q", column, entries so far.
Frame(p, k, c) == [p |-> p, k |-> k, c |-> c, n |-> 0]
Top == stack[Len(stack)]

Init ==
    /\ lines = <<>> /\ pend = "" /\ entries = 0 /\ tree = None
    /\ \/ \E k \in {"m", "q"} : \E c \in {0, 2} : stack = <<Frame(<<>>, k, c)>>
       \/ stack = <<Frame(<<>>, "s", 1)>>        \* a document that is one text

\* ------------------------------------------------------------ leaf layouts
\* head: text before the value on its line; c: column of the entry.
Lay(ls, v) == [ls |-> ls, v |-> v]
In(c, d) == Spaces(c + d)

\* A tab directly after the dash of a list item is not used.
Ends(head) == IF head # "" /\ Ch(head, Len(head)) = "-" THEN {t \in Tails : ~StartsWith(t, "\t")} ELSE Tails

\* The ways to write a leaf in one style after head: lines and the value.
Layouts(st, head, c) ==
    LET W == Pick(Words)  T == Pick(Tails)  E == Pick(Ends(head))  D == Pick(Steps)  D2 == Pick(Steps) IN
    CASE st = "plain" -> {Lay(<<head \o g \o w \o t>>, w) : g \in Pick({" ", "   "}), w \in W, t \in T}
      [] st = "cited" -> {Lay(<<head \o " " \o q.text \o t>>, q.value) : q \in Pick(Cited), t \in T}
      [] st = "empty" -> {Lay(<<head \o t>>, "") : t \in E}
      [] st = "below" -> {Lay(<<head \o t, In(c, d) \o w>>, w) : t \in E, w \in W, d \in D}
      [] st = "lines" -> {Lay(<<head \o " " \o w \o t, In(c, d) \o "second line", In(c, e) \o "third">>, w \o " second line third")
                             : w \in W, t \in T, d \in D, e \in D2}
      [] st = "citedlines" -> {Lay(<<head \o " \"first", In(c, d) \o "last\"">>, "first last") : d \in D}
      [] st = "literal" ->
          {Lay(<<head \o " |" \o m \o t, In(c, d) \o "one: 1", In(c, d) \o "  - 'two'", "", In(c, d) \o "\"three">>,
               "one: 1\n  - 'two'\n\n\"three" \o (IF m = "" /\ t = "" THEN NL ELSE "")) : m \in Pick({"", "-"}), t \in Pick({"", "  "}), d \in D}
      [] st = "literal1" -> {Lay(<<head \o " |", In(c, d) \o w>>, w \o NL) : d \in D, w \in W}
      [] st = "folded" ->
          {Lay(<<head \o " >" \o m, In(c, d) \o "one", In(c, d) \o "two", "", In(c, d) \o "three", In(c, d) \o "  deeper", In(c, d) \o "four">>,
               "one two\nthree\n  deeper four" \o (IF m = "" THEN NL ELSE "")) : m \in Pick({"", "-"}), d \in D}
      [] st = "folded1" -> {Lay(<<head \o " >-", In(c, d) \o "alone">>, "alone") : d \in D}

\* Text before the value of a new entry, for the line at hand.
Margin == IF pend # "" THEN pend ELSE Spaces(Top.c)
FreeKeys == {k \in Keys : KeyPos(AsMap(Get(tree, Top.p)), k.key) = 0}
Heads == IF Top.k = "s" THEN {[h |-> "", key |-> ""]}
         ELSE IF Top.k = "q" THEN {[h |-> Margin \o "-", key |-> ""]}
         ELSE {[h |-> Margin \o k.text \o s \o ":", key |-> k.key] : k \in FreeKeys, s \in Gaps}

WithEntry(key, x) ==
    LET n == Get(tree, Top.p) IN
    Put(tree, Top.p, IF Top.k = "s" THEN x ELSE IF Top.k = "q" THEN PushBack(n, x) ELSE PutKey(n, key, x))
Counted == [stack EXCEPT ![Len(stack)].n = @ + 1]

AddLeaf ==
    /\ entries < MaxEntries
    /\ Top.k = "s" => Top.n = 0
    /\ \E h \in Pick(Heads) : \E st \in Pick(IF Top.k = "s" THEN Styles \ {"empty"} ELSE Styles) : \E y \in Layouts(st, h.h, Top.c) :
         /\ lines' = lines \o y.ls
         /\ tree' = WithEntry(h.key, Leaf(y.v))
    /\ stack' = Counted
    /\ pend' = ""
    /\ entries' = entries + 1

\* The path of the entry just added with key in the new tree.
PathTo(t, key) == Append(Top.p, IF Top.k = "q" THEN Size(Get(t, Top.p)) - 1 ELSE KeyPos(Get(t, Top.p), key) - 1)

\* A nested container whose first entry starts on a line of its own.
OpenBelow ==
    /\ entries < MaxEntries /\ Len(stack) < MaxDepth /\ Top.k # "s"
    /\ \E h \in Pick(Heads) : \E k \in {"m", "q"} : \E d \in Pick(Steps) : \E t \in Pick(Ends(h.h)) :
         /\ lines' = Append(lines, h.h \o t)
         /\ tree' = WithEntry(h.key, None)
         /\ stack' = Append(Counted, Frame(PathTo(tree', h.key), k, Top.c + d))
    /\ pend' = ""
    /\ UNCHANGED entries

\* A container that starts on the line of its list item.
OpenCompact ==
    /\ entries < MaxEntries /\ Len(stack) < MaxDepth /\ Top.k = "q"
    /\ \E k \in {"m", "q"} : \E g \in {1, 2} :
         /\ pend' = Margin \o "-" \o Spaces(g)
         /\ tree' = WithEntry("", None)
         /\ stack' = Append(Counted, Frame(PathTo(tree', ""), k, Len(pend')))
    /\ UNCHANGED <<lines, entries>>

Close ==
    /\ Len(stack) > 1 /\ Top.n > 0 /\ pend = ""
    /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
    /\ UNCHANGED <<lines, pend, tree, entries>>

AddNoise ==
    /\ Noise # {} /\ pend = ""
    /\ IF lines = <<>> THEN TRUE ELSE lines[Len(lines)] \notin Noise
    /\ \E x \in Pick(Noise) : lines' = Append(lines, x)
    /\ UNCHANGED <<pend, stack, tree, entries>>

Next == AddLeaf \/ OpenBelow \/ OpenCompact \/ Close \/ AddNoise
Spec == Init /\ [][Next]_vars

\* --------------------------------------------------------------- documents
Complete == pend = "" /\ \A i \in 1..Len(stack) : stack[i].n > 0

Text(w) ==
    LET nl == IF w.crlf THEN "\r\n" ELSE "\n"
        body == w.before \o lines \o w.after IN
    Join(body, nl) \o (IF w.end THEN nl ELSE "")

Agree == Complete => \A w \in Wraps :
            LET o == Read(Text(w)) IN o.ok /\ o.tree = tree

\* ------------------------------------------------------ spoiled documents
\* Lines that make a document unreadable wherever they stand ...
Poison == {"\tk: v", " \t x", "k: \f", "\f"}
\* ... and lines that do so after the last line of a map (list) at column c.
BadKeys == {": v", "\"a\" \"b\": v", "\"a\" b: v", "zz: - v", "zz: |x", "zz: >2", "zz: \"open", "zz: 'open", "zz: a\"b", "zz: \"a\" b", "- v", "-"}
BadItems == {"zz: v", "- \"open", "- a'b", "- |+", "- : v", "- \"a\" b: v"}
Root == stack[1]
\* Every way to spoil the document: its lines and the line at fault (0: the
\* document as a whole, a line left of its first column).
Spoils ==
    {[ls |-> SubSeq(lines, 1, i) \o <<x>> \o SubSeq(lines, i + 1, Len(lines)), at |-> i + 1] : x \in Pick(Poison), i \in Pick(0..Len(lines))}
    \cup {[ls |-> Append(lines, Spaces(Root.c) \o x), at |-> Len(lines) + 1] : x \in Pick(IF Root.k = "m" THEN BadKeys ELSE IF Root.k = "q" THEN BadItems ELSE {})}
    \cup (IF Root.c = 2 /\ Root.k # "s" THEN {[ls |-> Append(lines, " " \o x), at |-> 0] : x \in Pick({"zz: v", "- v"})} ELSE {})

BadText(sp, w) == Join(w.before \o sp.ls, IF w.crlf THEN "\r\n" ELSE "\n")
Rejects == Complete => \A w \in Wraps : \A sp \in Spoils :
              LET o == Read(BadText(sp, w)) IN ~o.ok /\ (sp.at # 0 => o.line = Len(w.before) + sp.at)
=============================================================================
