------------------------------- MODULE YamlRead -------------------------------
(***************************************************************************)
(* How a text is read as a YAML document: the accepted language and the    *)
(* tree every accepted document denotes, and which texts are rejected, in  *)
(* which way and at which line.                                            *)
(*                                                                         *)
(* Reading has three stages, as in the implementation:                     *)
(*   ReadLines   text -> lines with their offset (comments, document       *)
(*               markers and leading empty lines removed)                  *)
(*   Classify    lines -> lines of one kind each: "q" list item, "m" map   *)
(*               key, "s" scalar; inline values get a line of their own    *)
(*   ParseValue  classified lines -> tree                                  *)
(***************************************************************************)
EXTENDS NodeTree, Integers

\* A result is good (ok) or an error of a kind at a line.
Err(kind, line) == [ok |-> FALSE, kind |-> kind, line |-> line]

\* ------------------------------------------------------------ cited parts
\* Double quotes that are not preceded by a backslash.
RECURSIVE QuotesUpto(_, _)
QuotesUpto(s, i) ==
    IF i = 0 THEN 0
    ELSE QuotesUpto(s, i - 1) + (IF Ch(s, i) = "\"" /\ (i = 1 \/ Ch(s, i - 1) # "\\") THEN 1 ELSE 0)

\* Position of the first token c of s that is not inside a quoted part, and
\* the number of quoted parts before it.  k: quotes seen, n: quotes in all.
RECURSIVE NotCitedFrom(_, _, _, _, _)
NotCitedFrom(s, c, i, k, n) ==
    IF i > Len(s) THEN [pos |-> 0, quotes |-> 0]
    ELSE IF Ch(s, i) = "\"" /\ (i = 1 \/ Ch(s, i - 1) # "\\") THEN NotCitedFrom(s, c, i + 1, k + 1, n)
    ELSE IF Ch(s, i) = c /\ ~(k % 2 = 1 /\ k < n) THEN [pos |-> i, quotes |-> k \div 2]
    ELSE NotCitedFrom(s, c, i + 1, k, n)
NotCited(s, c) == IF FindIn(s, {c}, 1) = 0 THEN [pos |-> 0, quotes |-> 0]
                  ELSE NotCitedFrom(s, c, 1, 0, QuotesUpto(s, Len(s)))

RECURSIVE Unescape(_, _)
Unescape(s, i) ==
    IF i > Len(s) THEN ""
    ELSE IF Ch(s, i) = "\\" /\ i < Len(s) THEN Ch(s, i + 1) \o Unescape(s, i + 2)
    ELSE Ch(s, i) \o Unescape(s, i + 1)

\* A scalar either contains no bare quote at all, or it starts with a quote
\* and the next bare quote of that sort is its last character.
RECURSIVE NextBare(_, _, _)
NextBare(s, set, i) ==
    LET p == FindIn(s, set, i) IN
    IF p = 0 THEN 0
    ELSE IF p > 1 /\ Ch(s, p - 1) = "\\" THEN NextBare(s, set, p + 1) ELSE p
QuotesOk(s) ==
    IF s = "" THEN TRUE
    ELSE IF Ch(s, 1) \in {"\"", "'"}
         THEN Len(s) > 1 /\ NextBare(s, {Ch(s, 1)}, 2) = Len(s)
         ELSE NextBare(s, {"\"", "'"}, 2) = 0
Unquote(s) == IF s # "" /\ Ch(s, 1) \in {"\"", "'"} THEN SubSeq(s, 2, Len(s) - 1) ELSE s

\* ------------------------------------------------------------- 1. ReadLines
Printable == {Ch(Ascii, i) : i \in 1..Len(Ascii)} \cup {"\t"}

\* One raw line: trailing carriage return and comment removed.
CleanLine(raw) ==
    LET a == IF raw # "" /\ Ch(raw, Len(raw)) = "\r" THEN Upto(raw, Len(raw) - 1) ELSE raw
        c == NotCited(a, "#").pos IN
    IF c = 0 THEN a ELSE Upto(a, c - 1)

\* st: [i, started, some, lines]; rest: the number of the line at which the
\* stream stands afterwards (0 when it is exhausted).
RECURSIVE ReadFrom(_, _)
ReadFrom(raw, st) ==
    IF st.i > Len(raw) THEN [ok |-> TRUE, lines |-> st.lines, rest |-> 0]
    ELSE
    LET s == CleanLine(raw[st.i])
        nb == FindOut(s, Blank, 1)
        tab == FindIn(s, {"\t"}, 1) IN
    IF s = "---" /\ ~st.started
    THEN ReadFrom(raw, [st EXCEPT !.i = @ + 1, !.started = TRUE, !.some = FALSE, !.lines = <<>>])
    ELSE IF s = "..." THEN [ok |-> TRUE, lines |-> st.lines, rest |-> IF st.i = Len(raw) THEN 0 ELSE st.i + 1]
    ELSE IF s = "---" THEN [ok |-> TRUE, lines |-> st.lines, rest |-> st.i]
    ELSE IF FindOut(s, Printable, 1) # 0 THEN Err("parsing", st.i)
    ELSE IF nb # 0 /\ tab # 0 /\ tab < nb THEN Err("parsing", st.i)
    ELSE LET data == IF nb = 0 THEN "" ELSE From(s, nb)
             line == [d |-> data, o |-> IF nb = 0 THEN 0 ELSE nb - 1, no |-> st.i, t |-> "?"] IN
         IF data = "" /\ ~st.some THEN ReadFrom(raw, [st EXCEPT !.i = @ + 1])
         ELSE ReadFrom(raw, [st EXCEPT !.i = @ + 1, !.some = TRUE, !.lines = Append(@, line)])

ReadLines(raw, from) == ReadFrom(raw, [i |-> from, started |-> FALSE, some |-> FALSE, lines |-> <<>>])

\* -------------------------------------------------------------- 2. Classify
IsItem(d) == d # "" /\ Ch(d, 1) = "-" /\ (Len(d) = 1 \/ Ch(d, 2) = " ")

\* Block scalar header: kind "" (none), "|" or ">"; nl: keeps a final newline.
Block(d) ==
    IF d = "" \/ Ch(d, 1) \notin {"|", ">"} THEN [kind |-> "", nl |-> FALSE, bad |-> FALSE]
    ELSE [kind |-> Ch(d, 1), nl |-> Len(d) = 1,
          bad |-> Len(d) > 1 /\ Ch(d, 2) \notin {"-", " ", "\t"}]

RECURSIVE DropEmpty(_)
DropEmpty(ls) == IF ls = <<>> THEN ls ELSE IF ls[1].d = "" THEN DropEmpty(Tail(ls)) ELSE ls

RECURSIVE DropEmptyEnd(_)
DropEmptyEnd(ls) == IF ls = <<>> THEN ls
                    ELSE IF ls[Len(ls)].d = "" THEN DropEmptyEnd(SubSeq(ls, 1, Len(ls) - 1)) ELSE ls

\* The lines (after the first) that continue a scalar below a parent offset.
RECURSIVE Cont(_, _, _)
Cont(ls, i, parent) ==
    IF i > Len(ls) THEN i
    ELSE IF ls[i].d # "" /\ ls[i].o <= parent THEN i ELSE Cont(ls, i + 1, parent)

Kind(l, t) == [l EXCEPT !.t = t]

RECURSIVE Classify(_, _)
RECURSIVE ClassifyItem(_, _)
RECURSIVE ClassifyKey(_, _)
RECURSIVE ClassifyScalar(_, _)

Classify(done, ls) ==
    IF ls = <<>> THEN [ok |-> TRUE, lines |-> done]
    ELSE IF IsItem(ls[1].d) THEN ClassifyItem(done, ls)
    ELSE ClassifyKey(done, ls)

ClassifyItem(done, ls) ==
    LET h == ls[1]
        rest == DropEmpty(Tail(ls))
        v == FindOut(h.d, Blank, 2)
        item == [Kind(h, "q") EXCEPT !.d = ""] IN
    IF v # 0
    THEN Classify(Append(done, item), <<[d |-> From(h.d, v), o |-> h.o + v - 1, no |-> h.no, t |-> "?"]>> \o rest)
    ELSE IF rest # <<>> /\ rest[1].o > h.o THEN Classify(Append(done, item), rest)
    ELSE ClassifyScalar(Append(done, item), <<[d |-> "", o |-> h.o + 2, no |-> h.no, t |-> "?"]>> \o rest)

ClassifyKey(done, ls) ==
    LET h == ls[1]
        c == NotCited(h.d, ":") IN
    IF c.pos = 0 THEN ClassifyScalar(done, ls)
    ELSE IF c.quotes > 1 THEN Err("parsing", h.no)
    ELSE
    LET key == RTrim(Upto(h.d, c.pos - 1))
        cited == c.quotes = 1
        v == FindOut(h.d, Blank, c.pos + 1)
        value == IF v = 0 THEN "" ELSE From(h.d, v)
        rest == DropEmpty(Tail(ls)) IN
    IF key = "" THEN Err("parsing", h.no)
    ELSE IF cited /\ (Ch(key, 1) # "\"" \/ Ch(key, Len(key)) # "\"") THEN Err("parsing", h.no)
    ELSE IF IsItem(value) THEN Err("parsing", h.no)
    ELSE
    LET name == Unescape(IF cited THEN SubSeq(key, 2, Len(key) - 1) ELSE key, 1)
        line == [Kind(h, "m") EXCEPT !.d = name] IN
    IF v = 0 /\ rest # <<>> /\ rest[1].o > h.o THEN Classify(Append(done, line), rest)
    ELSE IF Block(value).bad THEN Err("parsing", h.no)
    ELSE ClassifyScalar(Append(done, line),
            <<[d |-> value,
               o |-> IF Block(value).kind # "" THEN h.o ELSE IF v = 0 THEN h.o + c.pos + 1 ELSE h.o + v - 1,
               no |-> h.no, t |-> "?"]>> \o rest)

ClassifyScalar(done, ls) ==
    LET parent == IF done = <<>> THEN ls[1].o ELSE done[Len(done)].o
        stop == Cont(ls, 2, parent)
        own == <<ls[1]>> \o DropEmptyEnd(SubSeq(ls, 2, stop - 1)) IN
    Classify(done \o [i \in 1..Len(own) |-> Kind(own[i], "s")], SubSeq(ls, stop, Len(ls)))

\* ------------------------------------------------------------ 3. ParseValue
\* All return [ok, n (the tree), i (the next line)].
Done(n, i) == [ok |-> TRUE, n |-> n, i |-> i]

RECURSIVE ParseValue(_, _, _)
RECURSIVE ParseItems(_, _, _)
RECURSIVE ParseKeys(_, _, _)
RECURSIVE Plain(_, _, _, _, _)
RECURSIVE BlockText(_, _, _, _, _, _)

ParseValue(L, n, i) ==
    IF L[i].t = "q" THEN ParseItems(L, n, i)
    ELSE IF L[i].t = "m" THEN ParseKeys(L, n, i)
    ELSE
    LET b == Block(L[i].d)
        parent == IF i = 1 THEN 0 ELSE L[i - 1].o IN
    IF b.bad THEN Err("parsing", L[i].no)
    ELSE IF b.kind = "" THEN
        LET r == Plain(L, i, i, parent, "") IN
        IF ~r.ok THEN r
        ELSE IF ~QuotesOk(r.n) THEN Err("parsing", L[i].no)
        ELSE Done(Leaf(Unquote(r.n)), r.i)
    ELSE IF i = Len(L) \/ L[i + 1].t # "s" THEN Done(n, i + 1)
    ELSE IF L[i + 1].o <= parent THEN Err("parsing", L[i + 1].no)
    ELSE LET r == BlockText(L, i + 1, L[i + 1].o, b, "", FALSE) IN
         IF ~r.ok THEN r ELSE Done(Leaf(r.n), r.i)

\* The lines of a plain or quoted text, joined by single blanks.
Plain(L, first, i, parent, data) ==
    IF parent # 0 /\ L[i].o <= parent THEN Err("parsing", L[i].no)
    ELSE
    LET t == RTrim(L[i].d)
        d == data \o (IF t # "" THEN t ELSE IF i = first THEN "" ELSE NL) IN
    IF i = Len(L) \/ L[i + 1].t # "s" THEN Done(d, i + 1)
    ELSE Plain(L, first, i + 1, parent, d \o " ")

\* The lines of a block scalar; sp: data ends with a blank put in by folding.
EndNl(data) == Upto(data, Len(data) - 1) \o NL
BlockText(L, i, off, b, data, sp) ==
    IF i > Len(L) \/ L[i].t # "s" THEN Done(data, i)
    ELSE IF L[i].d = "" THEN
        BlockText(L, i + 1, off, b, IF sp THEN EndNl(data) ELSE data \o NL, FALSE)
    ELSE IF L[i].o < off THEN Err("parsing", L[i].no)
    ELSE
    LET deeper == L[i].o # off /\ b.kind = ">"
        pre == IF deeper THEN (IF sp THEN EndNl(data) ELSE data \o NL) ELSE data
        sp2 == IF deeper THEN FALSE ELSE sp
        d == pre \o Spaces(L[i].o - off) \o L[i].d IN
    IF i = Len(L) \/ L[i + 1].t # "s" THEN Done(d \o (IF b.nl THEN NL ELSE ""), i + 1)
    ELSE IF b.kind = ">" THEN BlockText(L, i + 1, off, b, d \o " ", TRUE)
    ELSE BlockText(L, i + 1, off, b, d \o NL, sp2)

ParseItems(L, n, i) ==
    LET r == ParseValue(L, None, i + 1) IN
    IF ~r.ok THEN r
    ELSE
    LET q == AsList(n)
        m == List(Append(q.c, r.n)) IN
    IF r.i > Len(L) \/ L[r.i].o < L[i].o THEN Done(m, r.i)
    ELSE IF L[r.i].o > L[i].o THEN Err("parsing", L[r.i].no)
    ELSE IF L[r.i].t # "q" THEN Err("internal", L[r.i].no)
    ELSE ParseItems(L, m, r.i)

ParseKeys(L, n, i) ==
    LET m0 == AsMap(n)
        r == ParseValue(L, AtKey(m0, L[i].d), i + 1) IN
    IF ~r.ok THEN r
    ELSE
    LET m == PutKey(m0, L[i].d, r.n) IN
    IF r.i > Len(L) \/ L[r.i].o < L[i].o THEN Done(m, r.i)
    ELSE IF L[r.i].o > L[i].o THEN Err("parsing", L[r.i].no)
    ELSE IF L[r.i].t # "m" THEN Err("internal", L[r.i].no)
    ELSE ParseKeys(L, m, r.i)

\* ------------------------------------------------------------------ a text
Outcome(ok, kind, line, tree, rest) == [ok |-> ok, kind |-> kind, line |-> line, tree |-> tree, rest |-> rest]

\* Reading the document that starts at line `from` of the raw lines; lines
\* are counted from there.
ReadAt(raw, from) ==
  LET o ==
    LET a == ReadLines(raw, from) IN
    IF ~a.ok THEN Outcome(FALSE, a.kind, a.line, None, 0)
    ELSE
    LET b == Classify(<<>>, a.lines) IN
    IF ~b.ok THEN Outcome(FALSE, b.kind, b.line, None, 0)
    ELSE IF b.lines = <<>> THEN Outcome(TRUE, "", 0, None, a.rest)
    ELSE
    LET r == ParseValue(b.lines, None, 1) IN
    IF ~r.ok THEN Outcome(FALSE, r.kind, r.line, None, 0)
    ELSE IF r.i <= Len(b.lines) THEN Outcome(FALSE, "internal", b.lines[1].no, None, 0)
    ELSE Outcome(TRUE, "", 0, r.n, a.rest)
  IN IF o.ok THEN o ELSE [o EXCEPT !.line = @ - from + 1]

Read(text) == ReadAt(Split(text, "\n"), 1)
=============================================================================
