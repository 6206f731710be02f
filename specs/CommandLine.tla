----------------------------- MODULE CommandLine -------------------------------
(***************************************************************************)
(* The command line of the micromechanics solvers (EVPFFT and its level-   *)
(* set variants): a machine that takes the arguments one by one.           *)
(*                                                                         *)
(* An option is a letter after "-" or a name after "--"; names may be      *)
(* shortened as long as one option is left. Values follow directly, after  *)
(* "=" (names), or as the next argument, whatever that is. Arguments that  *)
(* are no options are ignored, "--" ends the options, the last value of    *)
(* an option counts. Anything else, the help option, and incomplete        *)
(* settings end the program with the usage message and status 1.           *)
(***************************************************************************)
EXTENDS Chars, Integers

Options == <<[c |-> "f", name |-> "infile", arg |-> TRUE], [c |-> "m", name |-> "micro-filetype", arg |-> TRUE],
             [c |-> "e", name |-> "euler-angles", arg |-> TRUE], [c |-> "g", name |-> "feature-ids", arg |-> TRUE],
             [c |-> "p", name |-> "phase-ids", arg |-> TRUE], [c |-> "u", name |-> "euler-unit", arg |-> TRUE],
             [c |-> "h", name |-> "help", arg |-> FALSE]>>
NoOption == [c |-> "?", name |-> "", arg |-> FALSE]

\* The settings before the first argument.
Start == [f |-> "", m |-> 0, e |-> "", g |-> "", p |-> "", u |-> -1]

\* ---------------------------------------------------------------- numbers
Digits == "0123456789"
Space == {" ", "\t", "\n", "\r", "\f"}
DigitOf == [c \in {Ch(Digits, i) : i \in 1..10} |-> CHOOSE d \in 0..9 : Ch(Digits, d + 1) = c]
RECURSIVE Count(_, _, _)
Count(s, i, n) == IF i > Len(s) \/ Ch(s, i) \notin DOMAIN DigitOf THEN n ELSE Count(s, i + 1, 10 * n + DigitOf[Ch(s, i)])
\* The number a text starts with, 0 if none.
Number(s) ==
    LET p == FindOut(s, Space, 1)
        t == IF p = 0 THEN "" ELSE From(s, p)
        signed == t # "" /\ Ch(t, 1) \in {"+", "-"} IN
    IF signed /\ Ch(t, 1) = "-" THEN -Count(t, 2, 0) ELSE Count(t, IF signed THEN 2 ELSE 1, 0)

\* ------------------------------------------------------------------- names
Before(s, c) == LET i == FindIn(s, {c}, 1) IN IF i = 0 THEN s ELSE Upto(s, i - 1)
Named(n) ==
    LET exact == {i \in 1..Len(Options) : Options[i].name = n}
        short == {i \in 1..Len(Options) : StartsWith(Options[i].name, n)} IN
    IF exact # {} THEN Options[CHOOSE i \in exact : TRUE]
    ELSE IF \E i \in short : short = {i} THEN Options[CHOOSE i \in short : TRUE]
    ELSE NoOption
Lettered(c) ==
    LET s == {i \in 1..Len(Options) : Options[i].c = c} IN
    IF s = {} THEN NoOption ELSE Options[CHOOSE i \in s : TRUE]

Take(set, c, v) ==
    CASE c = "f" -> [set EXCEPT !.f = v] [] c = "m" -> [set EXCEPT !.m = Number(v)]
      [] c = "e" -> [set EXCEPT !.e = v] [] c = "g" -> [set EXCEPT !.g = v]
      [] c = "p" -> [set EXCEPT !.p = v] [] c = "u" -> [set EXCEPT !.u = Number(v)]

\* ----------------------------------------------------------- the machine
\* A state: how: "go", "run" (accepted) or "usage"; set: the settings;
\* rest: the arguments left.
State(how, set, rest) == [how |-> how, set |-> set, rest |-> rest]
Usage == State("usage", Start, <<>>)
Complete(set) == /\ set.f # ""
                 /\ set.m = 1 => (set.e # "" /\ set.g # "" /\ set.p # "" /\ set.u # -1)
End(set) == IF Complete(set) THEN State("run", set, <<>>) ELSE Usage

\* Option o with the value joined to it (has), or else the next argument.
Valued(set, o, has, v, rest) ==
    IF has THEN State("go", Take(set, o.c, v), rest)
    ELSE IF rest = <<>> THEN Usage
    ELSE State("go", Take(set, o.c, Head(rest)), Tail(rest))
Step(s) ==
    IF s.rest = <<>> THEN End(s.set) ELSE
    LET a == Head(s.rest)
        more == Tail(s.rest) IN
    IF a = "--" THEN End(s.set)
    ELSE IF StartsWith(a, "--") THEN
        LET n == Before(From(a, 3), "=")
            eq == FindIn(a, {"="}, 3)
            o == Named(n) IN
        IF o.arg THEN Valued(s.set, o, eq # 0, From(a, eq + 1), more) ELSE Usage
    ELSE IF Len(a) > 1 /\ Ch(a, 1) = "-" THEN
        LET o == Lettered(Ch(a, 2)) IN
        IF o.arg THEN Valued(s.set, o, Len(a) > 2, From(a, 3), more) ELSE Usage
    ELSE State("go", s.set, more)

RECURSIVE Finish(_)
Finish(s) == IF s.how = "go" THEN Finish(Step(s)) ELSE s
Outcome(args) == Finish(State("go", Start, args))
=============================================================================
