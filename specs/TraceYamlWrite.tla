--------------------------- MODULE TraceYamlWrite -----------------------------
(* Checks recorded writings of real trees: the text denotes the tree, the    *)
(* real parser gets it back, file/stream/string output agree (e.same), and   *)
(* the layout is the one the options ask for.                                *)
EXTENDS YamlWrite, Json, IOUtils
VARIABLE l

Log == ndJsonDeserialize(IOEnv.TRACE)
Got(o) == [ok |-> o.ok, tree |-> o.tree]

Expected(e) ==
    IF e.cfg.ind < 2 THEN [refused |-> TRUE] ELSE
    [refused |-> FALSE, meant |-> Got([ok |-> TRUE, tree |-> Norm(e.tree)]),
     back |-> Got([ok |-> TRUE, tree |-> Norm(e.tree)]),
     shape |-> Shape(Write(e.tree, e.cfg)), same |-> "ok"]
Observed(e) ==
    IF e.refused THEN [refused |-> TRUE] ELSE
    [refused |-> FALSE, meant |-> Got(Read(e.text)), back |-> Got(e.back), shape |-> Shape(e.text), same |-> e.same]

Init == l = 1 /\ TLCSet(1, 0)
Next ==
    /\ l <= Len(Log)
    /\ LET e == Log[l] IN
       IF ~StorableDoc(e.tree) THEN TRUE
       ELSE IF Observed(e) = Expected(e) THEN TLCSet(1, TLCGet(1) + 1)
       ELSE PrintT("MISMATCH " \o ToString(l) \o " " \o ToJson(Expected(e))) /\ FALSE
    /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == PrintT("USED " \o ToString(TLCGet(1))) /\ TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
