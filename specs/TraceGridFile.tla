----------------------------- MODULE TraceGridFile ------------------------------
(* Checks files written by the real writers against GridFile.                *)
EXTENDS GridFile, Json, IOUtils
VARIABLE l

Log == ndJsonDeserialize(IOEnv.TRACE)
RECURSIVE AllFields(_, _)
AllFields(s, fs) == IF fs = <<>> THEN s ELSE AllFields(Field(s, Head(fs)), Tail(fs))
Written(e) == Footer(AllFields(Header(New(e.n), e.name), e.fields))
RECURSIVE Same(_, _)     \* attributes as a set of pairs (a JSON object without entries is an empty sequence)
Pairs(at) == {<<k, at[k]>> : k \in DOMAIN at}
Same(x, y) == /\ x.tag = y.tag /\ x.text = y.text /\ Pairs(x.at) = Pairs(y.at) /\ Len(x.c) = Len(y.c)
              /\ \A i \in 1..Len(x.c) : Same(x.c[i], y.c[i])
Ok(e) == CASE e.op = "xdmf" -> Same(e.doc, Document(Written(e)))
           [] e.op = "vtk" -> e.lines = VtkLines(Written(e))
           [] e.op = "deduce" -> e.got = Deduced(e.type)
Allowed(e) == CASE e.op = "xdmf" -> ToJson(Document(Written(e))) [] e.op = "vtk" -> ToJson(VtkLines(Written(e))) [] e.op = "deduce" -> ToJson(Deduced(e.type))

Init == l = 1
Next == /\ l <= Len(Log)
        /\ IF Ok(Log[l]) THEN TRUE ELSE PrintT("MISMATCH " \o ToString(l) \o " " \o Allowed(Log[l])) /\ FALSE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
