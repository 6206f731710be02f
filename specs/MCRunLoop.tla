------------------------------- MODULE MCRunLoop -------------------------------
(* Runs of every length and schedule within small bounds; the state allows any *)
(* step at any time.                                                           *)
EXTENDS RunLoop
CONSTANTS Ends, Big, Ivals, Allowed
VARIABLES c, s, out, last
vars == <<c, s, out, last>>
Init == /\ c \in [start : {3}, end : Ends, dtmin : {1, 2}, dtmax : {2, 15}, dtstart : {10}, stop : {3, Big}, ival : Ivals, iter : {1, 3, 100}, since : BOOLEAN]
        /\ s = First(c)
        /\ out = {c.start}
        /\ last = 0
Step == /\ ~Over(c, s)
        /\ \E stable \in Allowed :
               LET d == Length(c, s, stable) IN
               /\ s' = After(c, s, d)
               /\ out' = IF Writes(c, s.cyc + 1, s.t + d, s.due) THEN out \cup {s.t + d} ELSE out
               /\ last' = d
        /\ UNCHANGED c
Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)

NeverPast == s.t <= Larger(c.start, c.end)
Limits == s.cyc > 0 => last <= c.dtmax /\ (last < 1 => c.end <= c.start)
Advances == [][c.end > c.start => s'.t > s.t]_vars
Started == c.start \in out
Finished == Over(c, s) => s.t \in out
Whole == Over(c, s) => s.t = Larger(c.start, c.end) \/ s.cyc = c.stop
Regular == ~c.since => \A k \in 1 .. 40 : c.start + k * c.ival <= s.t => c.start + k * c.ival \in out
NoGap == \A t \in out : t + c.ival < s.t => \E u \in out : u > t /\ u <= t + c.ival
(* Outputs between the regular ones are only written when the number of steps  *)
(* says so (or at the end).                                                    *)
Sparse == (c.iter > s.cyc /\ ~c.since) => \A t \in out : (t - c.start) % c.ival = 0 \/ t = s.t
Growth == [][last' <= Larger(s.base + (s.base \div 10), 1)]_vars
Ending == <>Over(c, s)
===============================================================================
