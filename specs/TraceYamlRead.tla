---------------------------- MODULE TraceYamlRead ----------------------------
(* Checks recorded readings of texts by the real parser against YamlRead.   *)
(* Every event is one text: what each way of handing it over gave (they all *)
(* agree: e.same), and the outcome of reading it as a document; e.next is   *)
(* the outcome of reading on from the same stream.                          *)
(* SIDE=good looks at texts that denote a document, SIDE=bad at the others. *)
EXTENDS YamlRead, Json, IOUtils
VARIABLES l

Log == ndJsonDeserialize(IOEnv.TRACE)
Side == IOEnv.SIDE

Obs(o) == [ok |-> o.ok, kind |-> o.kind, line |-> o.line, tree |-> o.tree]
Expected(e) ==
    LET raw == Split(e.text, "\n")
        o == ReadAt(raw, 1) IN
    [first |-> Obs(o),
     next |-> IF o.ok /\ o.rest # 0 THEN Obs(ReadAt(raw, o.rest)) ELSE Obs(Outcome(TRUE, "", 0, None, 0)),
     same |-> "ok"]

Relevant(x) == IF Side = "good" THEN x.first.ok ELSE ~x.first.ok

Init == l = 1 /\ TLCSet(1, 0)
Next ==
    /\ l <= Len(Log)
    /\ LET e == Log[l]
           x == Expected(e) IN
       IF ~Relevant(x) THEN TRUE
       ELSE IF [first |-> e.first, next |-> e.next, same |-> e.same] = x THEN TLCSet(1, TLCGet(1) + 1)
       ELSE PrintT("MISMATCH " \o ToString(l) \o " " \o ToJson(x)) /\ FALSE
    /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == PrintT("USED " \o ToString(TLCGet(1))) /\ TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
