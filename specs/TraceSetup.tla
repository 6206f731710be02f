------------------------------- MODULE TraceSetup ------------------------------
(* Checks what the real code set up from a deck: its mesh, its boundary sets,  *)
(* or the materials and fields (PART names which).                             *)
EXTENDS Setup, Json, IOUtils
VARIABLE l
Log == ndJsonDeserialize(IOEnv.TRACE)
Part == IOEnv.PART

(* The nodes of the specification that the nodes of the code are.              *)
Nowhere == <<>>
Ideal(m, nodes) ==
    LET ps == NodesOf(Elems(m)) IN
    IF m.kind # "polar" THEN [n \in DOMAIN nodes |-> IF nodes[n] \in ps THEN nodes[n] ELSE Nowhere]
    ELSE [n \in DOMAIN nodes |-> LET c == {p \in ps : \A d \in 1 .. 2 : Abs(p[d] - nodes[n][d]) <= 2} IN IF c = {} THEN Nowhere ELSE CHOOSE p \in c : TRUE]

MeshErrors(m, g, at) ==
    LET es == Elems(m)
        got == [e \in DOMAIN g.elems |-> [i \in DOMAIN g.elems[e] |-> at[g.elems[e][i]]]]
        RECURSIVE Wrong(_)
        Wrong(e) == IF e > Len(got) THEN {} ELSE (IF ~(IF m.kind = "polar" THEN NearVol(g.vol[e], Vol(got[e], 2)) ELSE g.vol[e] = Vol(got[e], 8)) THEN {<<"volume of element", e>>} ELSE {}) \cup Wrong(e + 1)
    IN (IF Nowhere \in Range(at) \/ Cardinality(Range(at)) # Len(at) \/ Range(at) # NodesOf(es) THEN {"other nodes"} ELSE {})
       \cup (IF Range(got) # es \/ Len(got) # Cardinality(es) THEN {"other elements"} ELSE Wrong(1))

(* A surface is too close to a node of a polar mesh to tell whether it is on.  *)
Open(m, s, ps) == m.kind = "polar" /\ \E p \in ps : On([s EXCEPT !.tol = @ + 4], p) # On([s EXCEPT !.tol = @ - 4], p)
SetErrors(m, bcs, g, at) ==
    LET b == Boundary(Elems(m))
        ps == NodesOf(Elems(m))
        Err(s, x) ==
            LET faces == [i \in DOMAIN x.faces |-> {at[x.faces[i][k]] : k \in DOMAIN x.faces[i]}]
                nodes == [i \in DOMAIN x.nodes |-> at[x.nodes[i]]]
                want == FaceSet(b, s)
            IN IF Range(faces) # want \/ Len(faces) # Cardinality(want) THEN {"other faces"}
               ELSE IF Range(nodes) # UNION want \/ Len(nodes) # Cardinality(UNION want) THEN {"other nodes"} ELSE {}
        RECURSIVE All(_)
        All(i) == IF i > Len(bcs) THEN {} ELSE (IF Open(m, bcs[i], ps) THEN {} ELSE {<<i, e>> : e \in Err(bcs[i], g.sets[i])}) \cup All(i + 1)
    IN IF Len(g.sets) # Len(bcs) THEN {"other sets"} ELSE All(1)

-------------------------------------------------------------------------------
Polar == Log[l].deck.mesh.kind = "polar"
Curved(f) == f.t \in {"radial", "spherical"}
Slack(f) == IF f.t \in {"none", "uniform"} THEN 0 ELSE IF Polar THEN 4 * Abs(f.s) + 4 ELSE IF Curved(f) THEN Abs(f.s) + 2 ELSE 0
(* It cannot be told whether the region fills the element alone.               *)
Unsure(r, e) == Slack(r.vf) > 0 /\ Near(Field(r.vf, Centre(e)), 4096, Slack(r.vf))
BinErrors(d, r, share, x, vol) ==
    LET want(k) == r[k] IN
       (IF x.mat # r.mat \/ x.gvf # 4096 THEN {"other material"} ELSE {})
    \cup (IF ~Near(x.vf, share, IF share \in {4096} THEN 0 ELSE Slack(r.vf)) THEN {"other volume fraction"} ELSE {})
    \cup (IF d.solver = "level_set" THEN {}
          ELSE (IF x.den # r.den THEN {"other density"} ELSE {})
               \cup (IF x.mass # 4 THEN {"mass is not density * volume * volume fraction"} ELSE {})
               \cup (IF r.energy \in {"sie", "both"} THEN (IF x.sie # r.sie THEN {"other specific energy"} ELSE {})
                     ELSE IF x.energy # -1 /\ x.energy # r.ie THEN {"other energy"} ELSE {})
               \cup (IF d.solver = "thrmex_FE" /\ (x.cond # r.cond \/ x.heat # r.heat) THEN {"other conductivity or specific heat"} ELSE {}))

FillErrors(d, g, at) ==
    LET m == d.mesh
        rs == d.regions
        elem == [e \in DOMAIN g.elems |-> [i \in DOMAIN g.elems[e] |-> at[g.elems[e][i]]]]
        part == [e \in DOMAIN elem |-> IF m.kind = "file" THEN m.part[CHOOSE i \in DOMAIN m.elems : m.elems[i] = elem[e]] ELSE 0]
        unsure == {e \in DOMAIN elem : \E i \in DOMAIN rs : InVolume(rs[i], elem[e], part[e]) /\ Unsure(rs[i], elem[e])}
        bins == TLCEval([e \in DOMAIN elem |-> FillAll(<<>>, rs, 1, elem[e], part[e])])
        Find(e, mat) == CHOOSE i \in DOMAIN g.bins[e] : g.bins[e][i].mat = mat
        ElemErr(e) ==
            LET b == bins[e] IN
            IF {g.bins[e][i].mat : i \in DOMAIN g.bins[e]} # {rs[b[i].fill].mat : i \in DOMAIN b} \/ Len(g.bins[e]) # Len(b) THEN {"other materials"}
            ELSE IF Range(g.mats[e]) # {rs[b[i].fill].mat : i \in DOMAIN b} \/ Len(g.mats[e]) # Len(b) THEN {"the element and its materials do not agree"}
            ELSE UNION {BinErrors(d, rs[b[i].fill], b[i].share, g.bins[e][Find(e, rs[b[i].fill].mat)], 0) : i \in DOMAIN b}
                 \cup (IF d.solver # "level_set" \/ b = <<>> THEN {}
                       ELSE LET f(i) == Field(rs[b[i].fill].ls, Centre(elem[e]))
                                low == CHOOSE x \in {f(i) : i \in DOMAIN b} : \A i \in DOMAIN b : x <= f(i)
                            IN IF Near(g.ls[e], low, IF Polar THEN 24 ELSE 6) THEN {} ELSE {<<"other level set", low>>})
        Around(n) == {e \in DOMAIN elem : n \in Range(g.elems[e])}
        NodeErr(n) ==
            LET fs == {rs[bins[e][i].fill] : <<e, i>> \in {<<e, i>> \in Around(n) \X (1 .. 9) : i \in DOMAIN bins[e]}} IN
            IF fs = {} \/ Around(n) \cap unsure # {} THEN {}
            ELSE (IF "vel" \in DOMAIN g /\ ~\E r \in fs : VelocityOk(r, at[n], g.vel[n]) THEN {"other velocity"} ELSE {})
                 \cup (IF d.solver = "thrmex_FE" /\ ~\E r \in fs : g.temp[n] = r.temp THEN {"other temperature"} ELSE {})
    IN UNION {{<<e, x>> : x \in ElemErr(e)} : e \in DOMAIN elem \ unsure} \cup UNION {{<<"node", n, x>> : x \in NodeErr(n)} : n \in DOMAIN at}

(* Whether some element has to hold more materials than it may.                *)
Crowded(d, unsure) ==
    LET m == d.mesh
        Part2(e) == IF m.kind = "file" THEN {m.part[i] : i \in {i \in DOMAIN m.elems : m.elems[i] = e}} ELSE {0}
    IN \E e \in Elems(m) : \E p \in Part2(e) :
           IF unsure THEN \E i \in DOMAIN d.regions : InVolume(d.regions[i], e, p) /\ Unsure(d.regions[i], e)
           ELSE TooMany(<<>>, d.regions, 1, e, p, d.max)
Errors(e) ==
    LET d == e.deck IN
    IF e.how # "ok" THEN (IF e.how = "refused" /\ (Crowded(d, FALSE) \/ Crowded(d, TRUE)) THEN {} ELSE {"the deck to be taken"})
    ELSE IF Part = "fill" /\ Crowded(d, FALSE) /\ ~Crowded(d, TRUE) THEN {"the deck to be refused"}
    ELSE LET at == TLCEval(Ideal(d.mesh, e.got.nodes)) IN
         IF Part = "mesh" THEN MeshErrors(d.mesh, e.got, at)
         ELSE IF Nowhere \in Range(at) THEN {"other nodes"}
         ELSE IF Part = "sets" THEN SetErrors(d.mesh, d.bcs, e.got, at)
         ELSE IF {[i \in DOMAIN e.got.elems[k] |-> at[e.got.elems[k][i]]] : k \in DOMAIN e.got.elems} # Elems(d.mesh) THEN {"other elements"}
         ELSE FillErrors(d, e.got, at)

Init == l = 1
Next == /\ l <= Len(Log)
        /\ LET x == Errors(Log[l]) IN IF x = {} THEN TRUE ELSE PrintT("MISMATCH " \o ToString(l) \o " " \o ToString(x)) /\ FALSE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
===============================================================================
