--------------------------- MODULE MCCommandLine -------------------------------
(***************************************************************************)
(* All command lines over a set of arguments, and all that are written     *)
(* from a list of wishes (an option, its value, how it is written) between *)
(* other arguments: the machine that reads them against what was wished.   *)
(***************************************************************************)
EXTENDS CommandLine
CONSTANTS Tokens, MaxArgs, Values, MaxWishes
VARIABLES args, want, st

\* -------------------------------------------------------------- wishes
Styles == {"letter", "joined", "name", "name=", "shortened=", "ignored"}
Wishes == [o : 1..6, v : Values, s : Styles]
Shortest(o) == LET n == Options[o].name IN Upto(n, CHOOSE k \in 1..Len(n) : Named(Upto(n, k)) = Options[o] /\ \A j \in 1..(k - 1) : Named(Upto(n, j)) # Options[o])
Written(w) ==
    LET o == Options[w.o] IN
    CASE w.s = "letter" -> <<"-" \o o.c, w.v>>
      [] w.s = "joined" -> IF w.v = "" THEN <<"-" \o o.c, w.v>> ELSE <<"-" \o o.c \o w.v>>
      [] w.s = "name" -> <<"--" \o o.name, w.v>>
      [] w.s = "name=" -> <<"--" \o o.name \o "=" \o w.v>>
      [] w.s = "shortened=" -> <<"--" \o Shortest(w.o) \o "=" \o w.v>>
      [] w.s = "ignored" -> IF w.v = "" \/ Ch(w.v, 1) # "-" THEN <<w.v>> ELSE <<"-">>
RECURSIVE AllWritten(_)
AllWritten(ws) == IF ws = <<>> THEN <<>> ELSE Written(Head(ws)) \o AllWritten(Tail(ws))
\* The last wish for option o, or the value before any.
Last(ws, o, before) ==
    LET at == {i \in 1..Len(ws) : ws[i].o = o /\ ws[i].s # "ignored"} IN
    IF at = {} THEN before ELSE ws[CHOOSE i \in at : \A j \in at : j <= i].v
Wished(ws) == [f |-> Last(ws, 1, ""), m |-> Number(Last(ws, 2, "0")), e |-> Last(ws, 3, ""), g |-> Last(ws, 4, ""),
               p |-> Last(ws, 5, ""), u |-> Number(Last(ws, 6, "-1"))]

Init == args = <<>> /\ want = <<>> /\ st = State("new", Start, <<>>)
Choose == /\ st.how = "new" /\ UNCHANGED st
          /\ \/ want = <<>> /\ Len(args) < MaxArgs /\ want' = want /\ \E t \in Tokens : args' = Append(args, t)
             \/ Len(args) = Len(AllWritten(want)) /\ Len(want) < MaxWishes /\ \E w \in Wishes : want' = Append(want, w) /\ args' = args \o Written(w)
Begin == st.how = "new" /\ st' = State("go", Start, args) /\ UNCHANGED <<args, want>>
Read == st.how = "go" /\ st' = Step(st) /\ UNCHANGED <<args, want>>
Next == Choose \/ Begin \/ Read
Spec == Init /\ [][Next]_<<args, want, st>> /\ WF_<<args, want, st>>(Begin \/ Read)

Done == st.how \in {"run", "usage"}
Ends == <>Done
\* What is run is complete; what is refused leaves nothing to run with.
OnlyComplete == /\ st.how = "run" => Complete(st.set)
                /\ st.how = "usage" => st.set = Start
\* Reading always makes progress.
Shrinks == [][(st.how = "go" /\ st'.how = "go") => Len(st'.rest) < Len(st.rest)]_<<args, want, st>>
\* A command line written from wishes gives what was wished.
AsWished == (Done /\ want # <<>>) => st = End(Wished(want))
\* Other arguments in front do not matter.
Ignored == Done => Outcome(<<"other">> \o args) = Outcome(args)
\* The last value of an option counts, as long as options had not ended.
Ended(as) == \E i \in 1..Len(as) : as[i] = "--"
LastCounts == (st.how = "run" /\ ~Ended(args)) => Outcome(args \o <<"-f", "z">>).set = [st.set EXCEPT !.f = "z"]
=============================================================================
