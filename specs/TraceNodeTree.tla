---------------------------- MODULE TraceNodeTree ----------------------------
(* Checks recorded calls on real YAML nodes against NodeTree. *)
EXTENDS NodeTree, Json, IOUtils
VARIABLES R, l

Log == ndJsonDeserialize(IOEnv.TRACE)
RootNames == {"a", "b", "c"}

Init == R = [r \in RootNames |-> None] /\ l = 1

Expected(e) == [roots |-> Apply(R, e), ret |-> Result(R, e), views |-> "ok"]

Matches(e) == [roots |-> e.roots, ret |-> e.ret, views |-> e.views] = Expected(e)

Next ==
    /\ l <= Len(Log)
    /\ LET e == Log[l] IN
       /\ IF Matches(e) THEN TRUE
          ELSE PrintT("MISMATCH " \o ToString(l) \o " " \o ToJson(Expected(e))) /\ FALSE
       /\ R' = e.roots
    /\ l' = l + 1

Spec == Init /\ [][Next]_<<R, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
