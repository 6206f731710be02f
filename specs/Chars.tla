------------------------------- MODULE Chars -------------------------------
(***************************************************************************)
(* Character-level helpers on TLA+ strings (TLC represents a string as a   *)
(* sequence of characters for Len, SubSeq and \o).                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

Ch(s, i) == SubSeq(s, i, i)

\* Position of every printable character in ASCII order (tab first).
Ord == [c \in {Ch(Ascii, i) : i \in 1..Len(Ascii)} \cup {"\t"} |->
            IF c = "\t" THEN 0 ELSE CHOOSE i \in 1..Len(Ascii) : Ch(Ascii, i) = c]

RECURSIVE StrLessFrom(_, _, _)
StrLessFrom(a, b, i) ==
    IF i > Len(b) THEN FALSE
    ELSE IF i > Len(a) THEN TRUE
    ELSE IF Ch(a, i) = Ch(b, i) THEN StrLessFrom(a, b, i + 1)
    ELSE Ord[Ch(a, i)] < Ord[Ch(b, i)]

\* Byte-wise order of two printable texts.
StrLess(a, b) == StrLessFrom(a, b, 1)

\* The text that occurs n times.
RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN "" ELSE s \o Rep(s, n - 1)

Spaces(n) == Rep(" ", n)

HasChar(s, set) == \E i \in 1..Len(s) : Ch(s, i) \in set

RECURSIVE JoinFrom(_, _, _)
JoinFrom(ss, sep, i) ==
    IF i > Len(ss) THEN ""
    ELSE IF i = Len(ss) THEN ss[i]
    ELSE ss[i] \o sep \o JoinFrom(ss, sep, i + 1)
Join(ss, sep) == JoinFrom(ss, sep, 1)

NL == "\n"

\* First position at or after i of a character in (not in) set; 0 if none.
RECURSIVE FindIn(_, _, _)
FindIn(s, set, i) == IF i > Len(s) THEN 0
                     ELSE IF Ch(s, i) \in set THEN i ELSE FindIn(s, set, i + 1)
RECURSIVE FindOut(_, _, _)
FindOut(s, set, i) == IF i > Len(s) THEN 0
                      ELSE IF Ch(s, i) \notin set THEN i ELSE FindOut(s, set, i + 1)
\* Last position at or before i of a character not in set; 0 if none.
RECURSIVE LastOut(_, _, _)
LastOut(s, set, i) == IF i = 0 THEN 0
                      ELSE IF Ch(s, i) \notin set THEN i ELSE LastOut(s, set, i - 1)

Blank == {" ", "\t"}
RTrim(s) == SubSeq(s, 1, LastOut(s, Blank, Len(s)))
LTrim(s) == LET p == FindOut(s, Blank, 1) IN IF p = 0 THEN "" ELSE SubSeq(s, p, Len(s))
Trim(s)  == LTrim(RTrim(s))
From(s, i) == SubSeq(s, i, Len(s))
Upto(s, i) == SubSeq(s, 1, i)
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

\* The pieces of s between occurrences of the character c (at least one piece).
RECURSIVE SplitFrom(_, _, _)
SplitFrom(s, c, i) ==
    LET p == FindIn(s, {c}, i) IN
    IF p = 0 THEN <<From(s, i)>> ELSE <<SubSeq(s, i, p - 1)>> \o SplitFrom(s, c, p + 1)
Split(s, c) == SplitFrom(s, c, 1)
=============================================================================
