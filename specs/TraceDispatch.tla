----------------------------- MODULE TraceDispatch ----------------------------
(* Checks recorded applications of handlers: the calls are those of the      *)
(* steps of Dispatch, taken for every recorded object and list of handlers.  *)
EXTENDS Dispatch, TLC, Json, IOUtils
VARIABLE l
Tree == [DBase |-> "", DA |-> "DBase", DAA |-> "DA", DB |-> "DBase"]
Log == ndJsonDeserialize(IOEnv.TRACE)
Mode(e) == IF e.try THEN "try" ELSE "apply"
Observed(e) == [ran |-> e.ran, which |-> e.which, self |-> e.self, ret |-> e.ret, threw |-> e.threw]
Reached == [ran |-> Len(ran), which |-> IF ran = <<>> THEN 0 ELSE ran[1], self |-> TRUE, ret |-> end # "false", threw |-> end = "error"]
Init == l = 1 /\ TLCSet(1, 0) /\ Start(Log[1].dyn, Log[1].hs, Mode(Log[1]), Log[1].boom)
Take == /\ end # ""
        /\ IF Observed(Log[l]) = Reached THEN TLCSet(1, TLCGet(1) + 1)
           ELSE PrintT("MISMATCH " \o ToString(l) \o " " \o ToJson(Reached)) /\ FALSE
        /\ l' = l + 1
        /\ IF l < Len(Log)
           THEN LET e == Log[l + 1] IN dyn' = e.dyn /\ hs' = e.hs /\ mode' = Mode(e) /\ boom' = e.boom /\ pos' = 1 /\ ran' = <<>> /\ end' = ""
           ELSE UNCHANGED vars
Next == l <= Len(Log) /\ ((Step /\ UNCHANGED l) \/ Take)
Spec == Init /\ [][Next]_<<vars, l>>
Accepted == PrintT("USED " \o ToString(TLCGet(1))) /\ TLCGet(1) = Len(Log)
=============================================================================
