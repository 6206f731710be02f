--------------------------- MODULE TraceCommandLine ----------------------------
(* Checks recorded runs of the real command line against CommandLine.       *)
EXTENDS CommandLine, Json, IOUtils
VARIABLE l

Log == ndJsonDeserialize(IOEnv.TRACE)
Told == [i \in 1..Len(Options) |-> "-" \o Options[i].c \o ", --" \o Options[i].name]
Expected(e) ==
    LET o == Outcome(e.args) IN
    IF o.how = "run" THEN [status |-> 0, set |-> <<o.set>>, told |-> <<>>]
    ELSE [status |-> 1, set |-> <<>>, told |-> Told]
Observed(e) == [status |-> e.status, set |-> e.set, told |-> e.told]

Init == l = 1
Next ==
    /\ l <= Len(Log)
    /\ LET e == Log[l] IN
       IF Observed(e) = Expected(e) THEN TRUE
       ELSE PrintT("MISMATCH " \o ToString(l) \o " " \o ToJson(Expected(e))) /\ FALSE
    /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
