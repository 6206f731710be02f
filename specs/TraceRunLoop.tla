------------------------------ MODULE TraceRunLoop -----------------------------
(* Checks recorded runs, one per line: when every solver starts, the length of  *)
(* each of its steps, when it ends, and when it writes outputs.                *)
EXTENDS RunLoop, SequencesExt, Json, IOUtils
VARIABLE l
Log == ndJsonDeserialize(IOEnv.TRACE)
Abs(x) == IF x < 0 THEN -x ELSE x
Close(a, b) == Abs(a - b) <= 3                     \* times are rounded to units

(* The states a solver may be in after a step of length d that did (or did not)*)
(* write an output.  Rounded, it cannot always be told whether an output was   *)
(* due or the end was reached.                                                 *)
Due(c, s, t) == {b \in BOOLEAN : IF Close(t, s.due) THEN TRUE ELSE b = (t >= s.due)}
End(c, t) == {b \in BOOLEAN : IF Close(t, c.end) THEN TRUE ELSE b = (t >= c.end)}
Steps(c, s, ev, prev) ==
    LET d == ev.t - prev.t
        want == Length(c, [s EXCEPT !.t = prev.t], prev.stable)
        cyc == s.cyc + 1
    IN IF s.over \/ ev.cycle # s.cyc \/ ~Close(d, want) \/ ~Close(ev.dt, want) THEN {}
       ELSE {[t |-> ev.t, cyc |-> cyc, base |-> IF ev.wrote THEN s.base ELSE ev.dt, over |-> x[2] \/ cyc >= c.stop,
              due |-> IF c.since THEN (IF ev.wrote THEN Plus(ev.t, c.ival) ELSE s.due) ELSE IF x[1] THEN Plus(s.due, c.ival) ELSE s.due] :
             x \in {x \in Due(c, s, ev.t) \X End(c, ev.t) : ev.wrote = ((cyc % c.iter = 0 /\ cyc > 1) \/ cyc = c.stop \/ x[1] \/ x[2])}}

(* What is wrong with a run of a solver.                                       *)
Fold(c, evs) ==
    FoldLeft(LAMBDA a, k :
                 IF a.bad # {} \/ a.left THEN a
                 ELSE IF evs[k - 1].stable < 0 THEN [a EXCEPT !.left = TRUE]       \* the state has come apart
                 ELSE LET n == TLCEval(UNION {Steps(c, s, evs[k], evs[k - 1]) : s \in a.at}) IN
                      IF n = {} THEN [a EXCEPT !.bad = {<<"step", k - 1, "after", a.at, "within", evs[k - 1].stable, "got", evs[k]>>}] ELSE [a EXCEPT !.at = n],
             [at |-> {[First(c) EXCEPT !.t = evs[1].t] @@ [over |-> c.stop = 0]}, bad |-> {}, left |-> FALSE], [i \in 1 .. Len(evs) - 1 |-> i + 1])
SolverErrors(c, r) ==
    LET f == TLCEval(Fold(c, r.events))
        times == <<c.start>> \o FoldLeft(LAMBDA a, k : IF r.events[k].wrote THEN a \o <<r.events[k].t>> ELSE a, <<>>, [i \in 1 .. Len(r.events) - 1 |-> i + 1])
    IN IF r.events = <<>> THEN {"the solver does not run"}
       ELSE IF ~Close(r.events[1].t, c.start) THEN {<<"starts at", r.events[1].t, "not", c.start>>}
       ELSE f.bad
            \cup (IF f.left \/ f.bad # {} \/ \E s \in f.at : s.over THEN {} ELSE {<<"ended at", f.at, "before", c.end>>})
            \cup (IF Len(r.listed) = Len(times) /\ \A i \in DOMAIN times : Abs(r.listed[i][1] - times[i]) <= 3 + times[i] \div 100000 THEN {} ELSE {<<"the outputs listed are", r.listed, "not", times>>})
            \cup (IF \A i \in DOMAIN r.listed : r.listed[i][2] = 1 THEN {} ELSE {"a listed output is not there"})
Errors(e) ==
    LET d == e.deck
        spans == TLCEval(Spans(d.t0, d.tf, [i \in DOMAIN d.solvers |-> d.solvers[i].tend], 1))
        Run(i) == [start |-> spans[i][1], end |-> spans[i][2], dtmin |-> d.dtmin, dtmax |-> d.dtmax, dtstart |-> d.dtstart, stop |-> d.stop, ival |-> d.ival, iter |-> d.iter, since |-> d.solvers[i].method = "level_set"]
    IN IF e.how # "ok" THEN {"the run to end"}
       ELSE UNION {{<<"solver", i - 1, x>> : x \in SolverErrors(Run(i), e.runs[i])} : i \in DOMAIN d.solvers}

Init == l = 1
Next == /\ l <= Len(Log)
        /\ LET x == Errors(Log[l]) IN IF x = {} THEN TRUE ELSE PrintT("MISMATCH " \o ToString(l) \o " " \o ToString(x)) /\ FALSE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
===============================================================================
