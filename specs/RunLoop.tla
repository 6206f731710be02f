-------------------------------- MODULE RunLoop --------------------------------
(* How a solver of the multiphysics code goes through time: the length of its  *)
(* steps, when it ends, and when it writes outputs.  Times are integers.       *)
(*                                                                             *)
(* A run c: start and end times, dtmin, dtmax, dtstart, the number of steps it *)
(* may take (stop), the time (ival) and the number of steps (iter) between     *)
(* outputs, and whether the time between outputs counts from the last output   *)
(* (since) or outputs are due at its multiples.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
MinOf(s) == CHOOSE x \in s : \A y \in s : x <= y
Most == 2147483647                                 \* never reached
Plus(a, b) == IF b > Most - a THEN Most ELSE a + b
Larger(a, b) == IF a > b THEN a ELSE b

(* The times of the solvers of a deck: each starts where the one before ends.  *)
(* tend = 0: the solver has no end time of its own.                            *)
RECURSIVE Spans(_, _, _, _)
Spans(t0, tf, tends, i) ==
    IF i > Len(tends) THEN <<>>
    ELSE LET e == Larger(t0, IF tends[i] = 0 \/ tends[i] > tf THEN tf ELSE tends[i]) IN <<<<t0, e>>>> \o Spans(e, tf, tends, i + 1)

First(c) == [t |-> c.start, base |-> c.dtstart, due |-> Plus(c.start, c.ival), cyc |-> 0]
Over(c, s) == s.cyc >= c.stop \/ (s.cyc > 0 /\ s.t >= c.end)

(* The next step: at most a tenth longer than the last one that was not cut    *)
(* short by an output, no longer than the state allows, within the limits, and *)
(* never past the time of an output or the end.                                *)
Clamp(c, stable) == Larger(MinOf({stable, c.dtmax}), c.dtmin)
Length(c, s, stable) == MinOf({s.base + (s.base \div 10), Clamp(c, stable), c.dtmax, Larger(s.due - s.t, 0), Larger(c.end - s.t, 0)})
Writes(c, cyc, t, due) == (cyc % c.iter = 0 /\ cyc > 1) \/ cyc = c.stop \/ t >= c.end \/ t >= due
After(c, s, d) ==
    LET t == s.t + d
        w == Writes(c, s.cyc + 1, t, s.due)
    IN [t |-> t, cyc |-> s.cyc + 1, base |-> IF w THEN s.base ELSE d,
        due |-> IF c.since THEN (IF w THEN Plus(t, c.ival) ELSE s.due) ELSE IF t >= s.due THEN Plus(s.due, c.ival) ELSE s.due]
===============================================================================
