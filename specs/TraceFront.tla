------------------------------- MODULE TraceFront ------------------------------
(* Checks recorded steps of the level set solver, one per line.                *)
EXTENDS Front, Json, IOUtils
VARIABLE l
Log == ndJsonDeserialize(IOEnv.TRACE)
Near(a, b, tol) == Size(a - b) <= tol
Mesh(e) ==
    LET S == DOMAIN e.elems
        N == DOMAIN e.x
        p == TLCEval([k \in S |-> [c \in DOMAIN e.elems[k] |-> e.x[e.elems[k][c]]]])
        a == TLCEval([k \in S |-> IF e.d = 3 THEN CornerAreas(p[k]) ELSE QuadNormals(p[k])])
        vol == TLCEval([k \in S |-> IF e.d = 3 THEN HexVolume(p[k], a[k]) ELSE Triangle(p[k][1], p[k][2], p[k][3]) + Triangle(p[k][1], p[k][3], p[k][4])])
    IN [elems |-> e.elems, a |-> a, vol |-> vol, len |-> TLCEval([k \in S |-> Smoothing(e.d, vol[k])]),
        at |-> TLCEval([n \in N |-> SetToSeq({<<k, c>> \in S \X DOMAIN e.elems[1] : e.elems[k][c] = n})]),
        held |-> TLCEval([n \in N |-> SelectSeq(e.bcs, LAMBDA b : n \in Range(b.nodes))])]
(* The material of an element whose front moves (0 if none does).              *)
Moving(e, k) == LET s == {i \in Range(e.in[k]) : e.mats[i].front} IN IF s = {} THEN 0 ELSE CHOOSE i \in s : TRUE
(* One stage for all elements: the new level set, how far it may be off by     *)
(* rounding, and where directions or weights are too small to tell, how far    *)
(* it may be at all.                                                           *)
Steep == One \div 64
Stage(e, m, p0, p, dt) ==
    LET g == TLCEval([n \in DOMAIN e.x |-> Slope(m, p, n, e.d)])
        v == TLCEval([n \in DOMAIN e.x |-> Heading(m, g[n], n)])
        size == TLCEval([n \in DOMAIN e.x |-> Norm2(g[n])])
        held(u, n) == FoldLeft(LAMBDA w, b : Held(w, b, TRUE, 0), u, m.held[n])
        none == [d \in 1 .. e.d |-> 0]
        unsure == TLCEval({n \in DOMAIN e.x : size[n] < Steep \/ (m.held[n] # <<>> /\ held([d \in 1 .. e.d |-> One], n) # none /\ Norm2(TLCEval(held(g[n], n))) < Steep)})
    IN [k \in DOMAIN e.elems |->
          LET i == Moving(e, k)
          IN IF i = 0 THEN [v |-> p0[k], off |-> 0, loose |-> FALSE]
             ELSE LET f == e.mats[i].speed * (One \div 8)
                      s == TLCEval(Signum(p[k], m.len[k]))
                      most == CHOOSE x \in {size[n] : n \in Range(e.elems[k])} : \A n \in Range(e.elems[k]) : x >= size[n]
                      h == TLCEval(Upwind(m, g, v, k, f + s))
                      thin == Sum(Weights(m, v, k, IF f + s < 0 THEN -One ELSE One)) < One \div 128 \/ Size(f + s) < One \div 128
                      off == 64 + (Mul(dt, Mul(Size(f) + One, most + One)) \div 256)
                  IN IF thin \/ Range(e.elems[k]) \cap unsure # {}
                     THEN [v |-> Evolved(p0[k], p[k], 0, f, m.len[k], dt), off |-> off + Mul(dt, Mul(Size(f + s), most)), loose |-> TRUE]
                     ELSE [v |-> Evolved(p0[k], p[k], h, f, m.len[k], dt), off |-> off, loose |-> FALSE]]
Errors(e) ==
    IF e.how # "ok" THEN {"the run to end"}
    ELSE LET m == TLCEval(Mesh(e))
             one == TLCEval(Stage(e, m, e.pre, e.pre, e.dt \div e.rk))
             vague == \E k \in DOMAIN e.elems : one[k].loose
             mid == TLCEval([k \in DOMAIN e.elems |-> one[k].v])
             last == TLCEval(IF e.rk = 1 \/ vague THEN one ELSE Stage(e, m, e.pre, mid, e.dt))
             off(k) == last[k].off + (IF e.rk = 1 THEN 0 ELSE 64 + 4 * last[k].off)
             now == IF e.rk = 1 THEN e.pre ELSE mid
         IN UNION {IF Moving(e, k) = 0 THEN (IF e.post[k] = e.pre[k] THEN {} ELSE {<<"the level set of element", k, "has no front and changes from", e.pre[k], "to", e.post[k]>>})
                   ELSE IF (e.rk = 2 /\ vague) \/ Near(e.post[k], last[k].v, off(k)) THEN {} ELSE {<<"level set of element", k, "should be", last[k].v, "off by at most", off(k), "is", e.post[k]>>} : k \in DOMAIN e.elems}
            \cup UNION {LET g == Slope(m, now, n, e.d) IN IF (e.rk = 2 /\ vague) \/ \A d \in 1 .. e.d : Near(g[d], e.grad[n][d], IF e.rk = 1 THEN 1024 ELSE 8192) THEN {} ELSE {<<"gradient at node", n, "should be", g, "is", e.grad[n]>>} : n \in DOMAIN e.x}
            \cup (IF \A k \in DOMAIN e.elems : e.d = 2 \/ Near(m.vol[k], e.vol[k], 256) THEN {} ELSE {"volumes"})

Init == l = 1
Next == /\ l <= Len(Log)
        /\ LET x == Errors(Log[l]) IN IF x = {} THEN TRUE ELSE PrintT("MISMATCH " \o ToString(l) \o " " \o ToString(x)) /\ FALSE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
===============================================================================
