------------------------------- MODULE TraceHydro ------------------------------
(* Checks recorded steps of the real code, one per line (PART names what of it: *)
(* the boundary conditions, the step, the state of the material, or heat).     *)
EXTENDS Bond, Json, IOUtils
VARIABLE l
Log == ndJsonDeserialize(IOEnv.TRACE)
Part == IOEnv.PART
Near(a, b, tol) == Size(a - b) <= tol
VNear(a, b, tol) == \A d \in DOMAIN a : Near(a[d], b[d], tol)
S(e) == DOMAIN e.elems
Corners(e, n) == {<<k, c>> \in S(e) \X (1 .. Len(e.elems[1])) : e.elems[k][c] = n}
List(s) == SetToSeq(s)
OfElem(e, k) == {i \in DOMAIN e.pts : e.pts[i].e = k}

(* The conditions on the velocity of node n, in order.                         *)
On(e, n) == SelectSeq(e.bcs, LAMBDA b : b.kind = "velocity" /\ \E i \in DOMAIN b.nodes : b.nodes[i] = n)
CornerForce(e, n) == LET s == List(Corners(e, n)) IN VSum([i \in DOMAIN s |-> e.F[s[i][1]][s[i][2]]], e.d)
Points(e, k) == [c \in DOMAIN e.elems[k] |-> e.pre.x[e.elems[k][c]]]

-------------------------------------------------------------------------------
(* What the conditions on stress add to the force on a node.                   *)
Outward(e, f) ==
    LET p == [i \in 1 .. 4 |-> e.pre.x[f[i]]]
        a == FaceArea(p)
        k == CHOOSE k \in S(e) : \A i \in 1 .. 4 : \E c \in DOMAIN e.elems[k] : e.elems[k][c] = f[i]
        mid == VSum(Points(e, k), 3)
        out == VSub([d \in 1 .. 3 |-> 2 * VSum(p, 3)[d]], mid)                 \* eight times: from the centre to the face
    IN IF Dot([d \in 1 .. 3 |-> out[d] \div 8], a) >= 0 THEN a ELSE VSub(<<0, 0, 0>>, a)
Stresses(e) == {i \in DOMAIN e.bcs : e.bcs[i].kind = "stress"}
Factor(b, t) == IF b.model = "constant" THEN One ELSE IF t < b.from \/ t > b.to THEN 0 ELSE Exp(-Mul(b.v[1], Fixed(t - b.from)))
Pull(e, n) ==
    LET s == List({<<i, j>> \in (DOMAIN e.bcs) \X (1 .. 20) : i \in Stresses(e) /\ j \in DOMAIN e.bcs[i].faces /\ \E k \in 1 .. 4 : e.bcs[i].faces[j][k] = n})
    IN VSum([q \in DOMAIN s |-> LET b == e.bcs[s[q][1]] IN VMul(StressForce(b.sig, Outward(e, b.faces[s[q][2]])), Factor(b, e.t))], 3)

-------------------------------------------------------------------------------
(* Velocities: what is left of the push of the forces after the conditions (in *)
(* 2D, the mass of a node changes between the stages of a step).               *)
Slack(e, n, push) == 12 + Div(20, e.mass0[n]) + Size(push) \div 8192
VelErr(e, n) ==
    LET bs == On(e, n)
        f == IF e.method = "dynx_FE" THEN e.nf[n] ELSE CornerForce(e, n)
        free == Pushed(e.pre.v[n], f, e.mass0[n], e.dt)
        push == CHOOSE m \in {Size(free[d] - e.pre.v[n][d]) : d \in DOMAIN free} : \A d \in DOMAIN free : m >= Size(free[d] - e.pre.v[n][d])
    IN IF (e.method = "dynx_FE_rz" /\ e.rk # 1) \/ \E i \in DOMAIN bs : Doubt(bs[i], e.t) THEN {}
       ELSE IF VNear(e.post.v[n], HeldAll(free, bs, e.t), Slack(e, n, push)) THEN {} ELSE {<<"velocity of node", n, "should be", HeldAll(free, bs, e.t), "is", e.post.v[n]>>}
(* The velocity itself, whatever the forces are: the last condition on a node  *)
(* always shows.                                                               *)
BcErr(e, n) ==
    LET bs == On(e, n)
        b == bs[Len(bs)]
        v == e.post.v[n]
    IN IF bs = <<>> \/ Doubt(b, e.t) THEN {}
       ELSE IF (IF b.model \in {"fixed", "constant"} THEN VNear(v, Held(v, b, TRUE, 0), 1)
                ELSE IF b.model = "reflected" THEN Near(Along(v, b), 0, 8 * b.k)
                ELSE IF Active(b, e.t) THEN Near(Along(v, b), b.k * Speed(b, Fixed(e.t - b.from)), 24 * b.k) ELSE TRUE) THEN {}
       ELSE {<<"node", n, "with velocity", v, "does not keep to", b.model, b.dir, b.v>>}
ForceErr(e, n) ==
    IF e.method # "dynx_FE" THEN {}
    ELSE IF Stresses(e) # {} /\ (e.rk # 1 \/ \E i \in Stresses(e) : e.bcs[i].model # "constant" /\ (Near(e.t, e.bcs[i].from, 2) \/ Near(e.t, e.bcs[i].to, 2))) THEN {}
    ELSE LET f == VAdd(CornerForce(e, n), Pull(e, n)) IN IF VNear(e.nf[n], f, 48) THEN {} ELSE {<<"force on node", n, "should be", f, "is", e.nf[n]>>}
MoveErr(e, n) ==
    LET x == Carried(e.pre.x[n], e.pre.v[n], e.post.v[n], e.dt)
        want == IF e.method = "dynx_FE_rz" /\ x[2] < 0 THEN [x EXCEPT ![2] = 0] ELSE x
    IN IF VNear(e.post.x[n], want, 12) THEN {} ELSE {<<"node", n, "should be at", want, "is at", e.post.x[n]>>}

(* Energy: what the material loses is the work of its corner forces (in 2D per *)
(* radian about the axis).                                                     *)
Arm(e, n) == IF e.method = "dynx_FE_rz" THEN e.pre.x[n][2] ELSE One
PointWork(e, p) == Sum([c \in DOMAIN e.elems[p.e] |-> LET n == e.elems[p.e][c] IN Mul(Arm(e, n), Dot(p.F[c], VAdd(e.pre.v[n], e.post.v[n])))])
EnergyErr(e, i) ==
    LET p == e.pts[i]
        w == Mul(e.dt, PointWork(e, p)) \div 2
    IN IF (e.method = "dynx_FE_rz" /\ e.rk # 1) \/ Near(Mul(p.mass, p.sie - p.sie0), -w, 48 + Size(w) \div 32768) THEN {}
       ELSE {<<"energy of material", p.mat, "in element", p.e, "changes by", Mul(p.mass, p.sie - p.sie0), "not", -w>>}
(* The forces of a material in an element cancel.                              *)
BalanceErr(e, i) == IF VNear(VSum(e.pts[i].F, e.d), [d \in 1 .. e.d |-> 0], 24) \/ e.method # "dynx_FE" THEN {} ELSE {<<"forces of material", e.pts[i].mat, "in element", e.pts[i].e, "do not cancel">>}
ShareErr(e, k) ==
    LET s == List(OfElem(e, k)) IN
    IF \A c \in DOMAIN e.elems[k] : VNear(e.F[k][c], VSum([i \in DOMAIN s |-> e.pts[s[i]].F[c]], e.d), 12) THEN {} ELSE {<<"corner forces of element", k, "are not those of its materials">>}
(* Without dissipation, an element acts on its corners with the pressure and   *)
(* the stress of its materials; dissipation takes kinetic energy away and      *)
(* never adds it.  Material that is gone does nothing.                         *)
Zero9 == [c \in 1 .. 9 |-> 0]
Normals(e, k) == IF e.d = 3 THEN CornerAreas(Points(e, k)) ELSE QuadNormals(Points(e, k))
Hoop(e, k, st) ==                                     \* of a stress about the axis
    LET w == TLCEval(QuadShares(Points(e, k)))
        all == Sum(w)
    IN [c \in 1 .. 4 |-> LET f == Div(Mul(w[c], all), e.vol0[k]) IN <<Mul(f, Ij(st, 2, 1)), Mul(f, Ij(st, 2, 2) - Ij(st, 3, 3))>>]
PushErr(e, i) ==
    LET p == e.pts[i]
        zero == [c \in DOMAIN p.F |-> [d \in 1 .. e.d |-> 0]]
    IN
    IF p.gone0 THEN (IF p.F = zero THEN {} ELSE {<<"material", p.mat, "is gone from element", p.e, "and pushes", p.F>>})
    ELSE IF e.rk # 1 THEN {}
    ELSE LET a == TLCEval(Normals(e, p.e))
             h == TLCEval(IF e.d = 3 \/ p.st0 = Zero9 THEN zero ELSE Hoop(e, p.e, p.st0))
             out == [c \in DOMAIN p.F |-> LET f == Felt(a[c], p.st0, p.pres0) IN [d \in 1 .. e.d |-> Mul(Mul(f[d] + h[c][d], p.vf), p.gvf)]]
         IN IF ~e.mats[p.mat + 1].q THEN (IF \A c \in DOMAIN p.F : VNear(p.F[c], out[c], 96) THEN {} ELSE {<<"material", p.mat, "in element", p.e, "should push", out, "pushes", p.F>>})
            ELSE IF Sum([c \in DOMAIN p.F |-> Dot(VSub(p.F[c], out[c]), e.pre.v[e.elems[p.e][c]])]) <= 900 THEN {} ELSE {<<"dissipation in element", p.e, "adds energy">>}
(* Nothing but the conditions at the boundary changes the total energy (nor do *)
(* conditions that only hold back, unless two of them at an angle do) or the   *)
(* total momentum; masses stay.                                                *)
TotalErr(e) ==
    LET free == /\ \A i \in DOMAIN e.bcs : e.bcs[i].kind = "velocity" /\ e.bcs[i].model \in {"fixed", "reflected"}
                /\ \A i, j \in DOMAIN e.bcs : i < j /\ e.bcs[i].model = "reflected" /\ e.bcs[j].model = "reflected"
                      => LET c == Sum([d \in DOMAIN e.bcs[i].dir |-> e.bcs[i].dir[d] * e.bcs[j].dir[d]]) IN c = 0 \/ Size(c) = e.bcs[i].k * e.bcs[j].k
        ext(n) == IF e.method = "dynx_FE_rz" THEN Mul(e.mass0[n], e.pre.x[n][2]) ELSE e.mass0[n]
        kin(v) == Sum([n \in DOMAIN v |-> Kinetic(v[n], ext(n))])
        gain == Sum([i \in DOMAIN e.pts |-> Mul(e.pts[i].mass, e.pts[i].sie - e.pts[i].sie0)])
        mom(v) == VSum([n \in DOMAIN v |-> VMul(v[n], e.mass0[n])], e.d)
        tol == 100 + 30 * Len(e.pre.x) * 2
    IN (IF ~free \/ (e.method = "dynx_FE_rz" /\ e.rk # 1) \/ Near(kin(e.post.v) - kin(e.pre.v), -gain, tol) THEN {} ELSE {<<"the total energy changes by", kin(e.post.v) - kin(e.pre.v) + gain>>})
       \cup (IF e.bcs # <<>> \/ e.method # "dynx_FE" \/ VNear(mom(e.post.v), mom(e.pre.v), tol) THEN {} ELSE {<<"the total momentum changes from", mom(e.pre.v), "to", mom(e.post.v)>>})
MassErr(e, n) ==
    IF e.method # "dynx_FE_rz" THEN
       LET s == List({<<i, c>> \in (DOMAIN e.pts) \X (1 .. 8) : e.elems[e.pts[i].e][c] = n})
           want == Sum([q \in DOMAIN s |-> e.pts[s[q][1]].mass]) \div 8
       IN IF e.mass[n] = e.mass0[n] /\ Near(e.mass[n], want, 12) THEN {} ELSE {<<"mass of node", n, "should be", want, "is", e.mass[n], "was", e.mass0[n]>>}
    ELSE IF e.pre.x[n][2] < 4096 \/ e.post.x[n][2] < 4096 \/ Near(Mul(e.mass[n], e.post.x[n][2]), Mul(e.mass0[n], e.pre.x[n][2]), 24 + 2 * ((e.mass[n] + e.mass0[n]) \div One)) THEN {} ELSE {<<"mass of node", n, "changes">>}

-------------------------------------------------------------------------------
(* The state of the materials.                                                 *)
VolErr(e, k) ==
    IF e.d # 3 THEN {}
    ELSE LET p == [c \in 1 .. 8 |-> e.post.x[e.elems[k][c]]]
             v == HexVolume(p, TLCEval(CornerAreas(p)))
         IN IF Near(e.vol[k], v, 96) THEN {} ELSE {<<"volume of element", k, "should be", v, "is", e.vol[k]>>}
StateErr(e, i) ==
    LET p == e.pts[i]
        m == e.mats[p.mat + 1]
        pr == EosPressure(m, p.den, p.sie)
        c2 == EosSquared(m, p.den, p.sie)
        kept == IF p.mass = p.mass0 /\ p.vf = p.vf0 THEN {} ELSE {<<"mass or share of material", p.mat, "in element", p.e, "changes">>}
    IN IF p.gone THEN kept ELSE kept
       \cup (IF Near(Mul(p.den, Mul(Mul(e.vol[p.e], p.vf), p.gvf)), p.mass, 24 + 3 * (p.den \div One)) THEN {} ELSE {<<"density of material", p.mat, "in element", p.e, "is not its mass over its volume">>})
       \cup (IF e.method = "thrmex_FE" THEN {}
             ELSE (IF Near(p.pres, pr, 32 + 4 * (p.den \div One)) THEN {} ELSE {<<"pressure of material", p.mat, "in element", p.e, "should be", pr, "is", p.pres>>})
                  \cup (IF (m.eos = "gamma" /\ p.sie < One \div 64) \/ Near(Mul(p.sspd, p.sspd), c2, 32) THEN {} ELSE {<<"sound speed of material", p.mat, "in element", p.e, "squared should be", c2, "is", p.sspd>>}))

(* How fast the velocity changes across an element.                            *)
GradErr(e, k) ==
    LET a == TLCEval(Normals(e, k))
        v(c) == e.pre.v[e.elems[k][c]]
        n == Len(e.elems[k])
        size == IF e.d = 3 THEN e.vol0[k] ELSE Sum(QuadShares(Points(e, k)))
        want(i, j) == Sum([c \in 1 .. n |-> Mul(v(c)[i], a[c][j])])
        tol == 64 + 48 * ((Largest([c \in 1 .. n |-> Largest(v(c))]) \div One) + 1) + 2 * (Largest(e.vg[k]) \div One)
    IN IF e.rk # 1 THEN {}
       ELSE IF /\ \A i, j \in 1 .. e.d : Near(Mul(Ij(e.vg[k], i, j), size), want(i, j), tol)
               /\ e.d = 3 \/ (Near(Mul(Ij(e.vg[k], 3, 3), e.vol0[k]), Mul(Sum([c \in 1 .. 4 |-> v(c)[2]]) \div 4, size), tol) /\ \A i \in 1 .. 2 : Ij(e.vg[k], i, 3) = 0 /\ Ij(e.vg[k], 3, i) = 0)
            THEN {} ELSE {<<"velocity gradient of element", k, "times its size should be", Tensor(LAMBDA i, j : IF i > e.d \/ j > e.d THEN 0 ELSE want(i, j)), "is", e.vg[k], "size", size>>}
(* The stress of materials with strength: symmetric, without a part that acts  *)
(* like a pressure (3D), never beyond the yield stress, and what deformation   *)
(* and turning make of the stress before.                                      *)
StressErr(e, i) ==
    LET p == e.pts[i]
        m == e.mats[p.mat + 1]
        y == m.yield * 65536
        u == TLCEval(Unit(p.st))
        sound == /\ \A a, b \in 1 .. 3 : Near(Ij(p.st, a, b), Ij(p.st, b, a), 1)
                 /\ IF e.d = 3 THEN Near(Trace_(p.st), 0, 8) ELSE \A a \in 1 .. 2 : Ij(p.st, a, 3) = 0
                 /\ Largest(p.st) < 64 \/ Mul(Largest(p.st), Mises(u)) <= y + 64
        s0 == IF e.d = 3 THEN p.st0 ELSE Deviator(p.st0)
        w == TLCEval(Yielding(TLCEval(Trial(s0, e.vg[p.e], m.shear, e.dt)), y))
        x == TLCEval(Yielding(TLCEval(AxisTrial(s0, e.vg[p.e], m.shear, e.dt)), y))
        is(a) == \A c \in 1 .. 9 : Near(p.st[c], a[c], 64)
    IN IF m.str = "none" \/ p.gone THEN (IF p.st = Zero9 THEN {} ELSE {<<"there should be no stress of material", p.mat, "in element", p.e, "but", p.st>>})
       ELSE IF ~sound THEN {<<"stress of material", p.mat, "in element", p.e, "is", p.st, "with yield stress", y>>}
       ELSE IF e.rk # 1 \/ is(w) THEN {}
       ELSE IF e.d = 2 /\ is(x) THEN (IF PrintT("KNOWN stress about an axis") THEN {} ELSE {})
       ELSE {<<"stress of material", p.mat, "in element", p.e, "should be", w, "is", p.st>>}
(* Erosion: material whose pressure or density gets too low is gone for good,  *)
(* without pressure, stress and density, but with its mass and energy.         *)
GoneErr(e, i) ==
    LET p == e.pts[i]
        m == e.mats[p.mat + 1]
        den == IF p.gone THEN Div(p.mass, Mul(Mul(e.vol[p.e], p.vf), p.gvf)) ELSE p.den
        pr == EosPressure(m, den, p.sie)
        slack == 1024 + (den \div 32)
        low(a) == pr <= m.tension * 65536 + a \/ den <= m.thin * 65536 + a
        bad(b, what) == IF b THEN {<<"material", p.mat, "in element", p.e, what, "pressure", pr, "density", den>>} ELSE {}
    IN bad(p.gone /\ m.ero = "none", "erodes")
       \cup bad(p.gone0 /\ ~p.gone, "comes back")
       \cup bad(m.ero = "basic" /\ ~p.gone /\ low(-slack), "should erode")
       \cup bad(m.ero = "basic" /\ p.gone /\ ~p.gone0 /\ e.rk = 1 /\ ~low(slack), "should not erode")
       \cup bad(p.gone /\ ~(p.pres = 0 /\ p.sspd = 0 /\ p.den = 0), "is gone but not without pressure, speed of sound and density")

-------------------------------------------------------------------------------
(* Heat (temperatures less 300; heat flows in 1024s, the length of the step in *)
(* 1024ths).                                                                   *)
Film == 100
Reference == -(137 * One) \div 20                                              \* 293.15
Grad(e, k, a) == [d \in 1 .. 3 |-> Div(Sum([c \in 1 .. 8 |-> Mul(a[c][d], e.pre.T[e.elems[k][c]] - e.pre.T[e.elems[k][1]])]), e.vol0[k])]
FlowErr(e, k) ==
    LET a == TLCEval(CornerAreas(Points(e, k)))
        g == TLCEval(Grad(e, k, a))
        s == List(OfElem(e, k))
        cond == Sum([i \in DOMAIN s |-> Mul(e.pts[s[i]].vf, e.pts[s[i]].cond)])
        want(c) == -Mul(cond, Dot(g, a[c]))
        most == CHOOSE m \in {Size(e.pre.T[n] - e.pre.T[e.elems[k][1]]) : n \in Range(e.elems[k])} : \A n \in Range(e.elems[k]) : m >= Size(e.pre.T[n] - e.pre.T[e.elems[k][1]])
        tol == 100 + 24 * ((cond \div One) + 1) * ((Div(most, e.vol0[k]) \div One) + 1)
    IN IF e.rk # 1 \/ \A c \in 1 .. 8 : Near(e.cq[k][c], want(c), tol) THEN {} ELSE {<<"heat to the corners of element", k, "should be", [c \in 1 .. 8 |-> want(c)], "is", e.cq[k]>>}
CancelErr(e, k) == IF Near(Sum(e.cq[k]), 0, 24) THEN {} ELSE {<<"heat flows of element", k, "do not cancel">>}
Cooling(e, n) ==
    LET s == List({<<i, j>> \in (DOMAIN e.bcs) \X (1 .. 20) : e.bcs[i].model = "convection" /\ j \in DOMAIN e.bcs[i].faces /\ \E k \in 1 .. 4 : e.bcs[i].faces[j][k] = n})
        area(f) == LET a == FaceArea([i \in 1 .. 4 |-> e.pre.x[f[i]]]) IN Size(a[1]) + Size(a[2]) + Size(a[3])                \* the faces lie in planes of constant x, y or z
    IN Sum([q \in DOMAIN s |-> -Mul(e.pre.T[n] - Reference, area(e.bcs[s[q][1]].faces[s[q][2]]) \div 4)])                     \* over the film coefficient
HeatErr(e, n) ==
    LET s == List(Corners(e, n))
        in == (Sum([i \in DOMAIN s |-> e.cq[s[i][1]][s[i][2]]]) \div 1024) + ((Film * (Cooling(e, n) \div 16)) \div 64)
    IN IF e.rk # 1 \/ Near(e.nq[n], in, 12) THEN {} ELSE {<<"heat to node", n, "should be", in, "is", e.nq[n]>>}
Hot(e, n) == {i \in DOMAIN e.bcs : e.bcs[i].kind = "temperature" /\ e.bcs[i].model = "constant" /\ \E j \in DOMAIN e.bcs[i].nodes : e.bcs[i].nodes[j] = n}
(* The specific heat of a node is the mean of those of the elements around it, *)
(* that of an element the mean over the mass of its materials.                 *)
HeatOf(e, k) == LET s == List(OfElem(e, k)) IN Div(Sum([i \in DOMAIN s |-> Mul(e.pts[s[i]].mass, e.pts[s[i]].heat)]), Sum([i \in DOMAIN s |-> e.pts[s[i]].mass]))
HeatAt(e, n) == LET s == List({c[1] : c \in Corners(e, n)}) IN Sum([i \in DOMAIN s |-> HeatOf(e, s[i])]) \div Len(s)
TempErr(e, n) ==
    LET rise == Mul(e.dt10, e.nq[n])
        hot == Hot(e, n)
    IN IF hot # {} THEN (IF e.post.T[n] = e.bcs[CHOOSE i \in hot : \A j \in hot : j <= i].temp THEN {} ELSE {<<"node", n, "does not keep its temperature">>})
       ELSE IF Near(Mul(Mul(e.mass0[n], HeatAt(e, n)), e.post.T[n] - e.pre.T[n]), rise, 32) THEN {} ELSE {<<"node", n, "should take up", rise, "takes", Mul(Mul(e.mass0[n], HeatAt(e, n)), e.post.T[n] - e.pre.T[n])>>}

-------------------------------------------------------------------------------
(* Contact between the bodies of a mesh.  What nodes feel besides the forces of *)
(* their elements is between the bodies.                                       *)
FirstBody(e) == FoldLeft(LAMBDA a, k : a \cup UNION {Range(e.elems[i]) : i \in {i \in S(e) : Range(e.elems[i]) \cap a # {}}}, Range(e.elems[1]), e.elems)
Faces(e) ==                                            \* at the boundary of a body
    LET all == {[i \in 1 .. 4 |-> e.elems[k][HexFaces[f][i]]] : k \in S(e), f \in 1 .. 6}
        sets == [q \in all |-> Range(q)]
    IN {q \in all : \A r \in all : r # q => sets[r] # sets[q]}
Quad(x, q) == [i \in 1 .. 4 |-> x[q[i]]]
Edge(p) == LET all == {Length(VSub(p[i], p[(i % 4) + 1])) : i \in 1 .. 4} IN CHOOSE m \in all : \A x \in all : m <= x
By(p, q) == \A d \in 1 .. 3 : (\E i \in 1 .. 4 : p[d] >= q[i][d] - One \div 4) /\ (\E i \in 1 .. 4 : p[d] <= q[i][d] + One \div 4)
ContactErr(e) ==
    LET N == DOMAIN e.pre.x
        fc == TLCEval([n \in N |-> VSub(e.nf[n], CornerForce(e, n))])
        size == TLCEval(Sum([n \in N |-> Largest(fc[n])]))
        tol == 48 * Len(e.pre.x)
        one == TLCEval(FirstBody(e))
        fs == TLCEval(Faces(e))
        pairs == TLCEval({pq \in N \X fs : (pq[1] \in one) # (pq[2][1] \in one) /\ (By(e.pre.x[pq[1]], Quad(e.pre.x, pq[2])) \/ By(e.post.x[pq[1]], Quad(e.post.x, pq[2])))})
        ends == TLCEval([pq \in pairs |-> Against(e.post.x[pq[1]], Quad(e.post.x, pq[2]))])
        starts == TLCEval([pq \in pairs |-> Against(e.pre.x[pq[1]], Quad(e.pre.x, pq[2]))])
        meet == TLCEval({pq \in pairs : Over(ends[pq], (11 * One) \div 10) /\ Size(ends[pq][3]) <= One \div 256})
        touching == {pq[1] : pq \in meet} \cup UNION {Range(pq[2]) : pq \in meet}
        free(n) == Carried(e.pre.x[n], e.pre.v[n], Pushed(e.pre.v[n], CornerForce(e, n), e.mass0[n], e.dt), e.dt)
        middle(n) == LET c == List(Corners(e, n)) IN [d \in 1 .. 3 |-> Sum([i \in DOMAIN c |-> VSum(Points(e, c[i][1]), 3)[d] \div 8]) \div Len(c)]
        edge(q) == Edge(Quad(e.pre.x, q))
        (* Nodes right over a face of the other body, their own body outside of it. *)
        facing == {pq \in pairs : LET z == starts[pq] IN Over(z, (7 * One) \div 10) /\ Over(ends[pq], (19 * One) \div 20) /\ z[3] < One \div 128 /\ z[3] > -(edge(pq[2]) \div (IF e.cycle = 0 THEN 16 ELSE 256))
                        /\ LET m == Against(middle(pq[1]), Quad(e.pre.x, pq[2])) IN Over(m, 4 * One) /\ m[3] > edge(pq[2]) \div 8}
        through(pq) ==
            LET z == Against(free(pq[1]), [i \in 1 .. 4 |-> free(pq[2][i])])
            IN z[3] < -(One \div 512) /\ ends[pq][3] < z[3] \div 8 - One \div 2048
    IN (IF NoNet(fc, tol) THEN {} ELSE {<<"the forces of contact add up to", VSum(fc, 3)>>})
       \cup (IF e.rk # 1 THEN {}
             ELSE (IF NoTurn(e.post.x, fc, 8 * tol + size \div 16) THEN {} ELSE {<<"the forces of contact turn the bodies by", VSum([n \in N |-> Cross(e.post.x[n], fc[n])], 3)>>})
                  \cup {<<"contact moves node", n, "that touches nothing, by", fc[n]>> : n \in {n \in N : e.axis # 0 /\ Largest(fc[n]) > size \div 32 + 96 /\ n \notin touching}}
                  \cup {<<"node", pq[1], "passes through the face", pq[2], "to", ends[pq][3]>> : pq \in {pq \in facing : through(pq)}}
                  \cup (LET pull == Sum([n \in N |-> IF e.axis # 0 /\ n \in one THEN fc[n][e.axis] ELSE 0]) IN IF pull <= size \div 64 + tol THEN {} ELSE {<<"contact pulls the bodies together by", pull>>}))

-------------------------------------------------------------------------------
(* Bonds: between nodes of two bodies that were in one place at first.  The     *)
(* faces they hold together are taken of one of the bodies, whichever.          *)
BondErr(e) ==
    LET N == DOMAIN e.pre.x
        fc == TLCEval([n \in N |-> VSub(e.nf[n], CornerForce(e, n))])
        run == Append(e.past, [x |-> e.pre.x, v |-> e.pre.v, dt |-> e.dt])
        start == run[1].x
        one == TLCEval(FirstBody(e))
        pairs == TLCEval({ab \in one \X (N \ one) : VNear(start[ab[1]], start[ab[2]], 1)})
        other == TLCEval([n \in {ab[1] : ab \in pairs} \cup {ab[2] : ab \in pairs} |-> CHOOSE m \in N : <<n, m>> \in pairs \/ <<m, n>> \in pairs])
        all == TLCEval(Faces(e))
        sets == TLCEval({Range(q) : q \in all})
        held == TLCEval({q \in all : Range(q) \subseteq DOMAIN other /\ {other[m] : m \in Range(q)} \in sets})
        p == e.bond
        Normal(q) == LET o == Outwards(q) IN IF Largest(o) < 2048 THEN <<0, 0, 0>> ELSE UnitOf(o)
        at == TLCEval([n \in DOMAIN other |-> SetToSeq({q \in held : n \in Range(q)})])
        Middle(a, x) == LET s == TLCEval(VSum([k \in DOMAIN at[a] |-> Normal(Quad(x, at[a][k]))], 3)) IN IF Largest(s) < 2048 THEN <<0, 0, 0>> ELSE UnitOf(s)
        Size_(a, x) == Sum([k \in DOMAIN at[a] |-> Area(Quad(x, at[a][k])) \div 4])
        (* The bond and how well it is known, step by step. *)
        after(z, r, a, b) ==
            LET o == TLCEval(Opening(VSub(r.x[b], r.x[a]), VMul(VSub(r.v[b], r.v[a]), r.dt), Middle(a, r.x)))
                y == TLCEval(Bonded(p, z.z, o, r.dt))
                lam == TLCEval(Apartness(o.un, o.ut, p))
                lam2 == TLCEval(Apartness(o.un2, o.ut2, p))
                grow == Mul(Mul(p.a1, r.dt), Power((lam + lam2) \div 2, p.n))
                stiff == p.E + Sum([j \in DOMAIN p.parts |-> p.parts[j].E])
                most == Mul(stiff, IF lam > lam2 THEN lam ELSE lam2) + Sum([j \in DOMAIN y.s |-> Size(y.s[j])])
                least(x) == IF x < 8 THEN 8 ELSE x
                blur(c) == (most * 4) \div least(Mul(c, IF p.un < p.ut THEN p.un ELSE p.ut))
            IN [z |-> y, o |-> o, tol |-> z.tol + 32 + most \div 1024 + (IF z.o = <<>> THEN 0 ELSE blur(lam)) + blur(lam2),   \* shut at first
               
                doubt |-> \/ z.doubt \/ lam > 12 * One \/ lam2 > 12 * One \/ (Size(lam2 - lam) < 64 /\ grow > 256)
                          \/ (lam2 > lam - 64 /\ p.n < 4 /\ lam + lam2 < One \div 64 /\ grow > 256)]
        fits(a, b) ==
            LET z == TLCEval(FoldLeft(LAMBDA s, r : TLCEval(after(s, r, a, b)), [z |-> New(p), o |-> <<>>, tol |-> 0, doubt |-> FALSE], run))
                x == e.pre.x
                n == TLCEval(Middle(a, x))
                u == VSub(x[b], x[a])
                side == TLCEval(VSub(u, VMul(n, Dot(u, n))))
                far == Length(side)
                area == TLCEval(Size_(a, x))
                across == IF far = 0 THEN <<0, 0, 0>> ELSE VMul([d \in 1 .. 3 |-> Divided(side[d], far)], z.z.tt)
                want == VMul(VAdd(VMul(n, z.z.tn), across), area)
                most == Size(z.z.tn) + Size(z.z.tt)
                tol == 64 + 2 * Mul(area, z.tol + most \div 512 + (Size(z.z.tt) * 6) \div (IF far < 6 THEN 6 ELSE far))
            IN IF area = 0 THEN <<Largest(fc[a]) <= 64, <<0, 0, 0>>>> ELSE <<z.doubt \/ VNear(fc[a], want, tol), want>>
    IN {<<"node", n, "of no bond is moved by", fc[n]>> : n \in {n \in N \ DOMAIN other : Largest(fc[n]) > 64}}
       \cup {<<"bond", ab, "pulls by", fc[ab[1]], "and by", fc[ab[2]]>> : ab \in {ab \in pairs : Largest(VAdd(fc[ab[1]], fc[ab[2]])) > 128}}
       \cup (IF e.rk # 1 THEN {}
             ELSE {<<"bond", ab, "pulls by", fc[ab[1]], "should by", fits(ab[1], ab[2])[2]>> : ab \in {ab \in pairs : ~fits(ab[1], ab[2])[1] /\ ~fits(ab[2], ab[1])[1]}})

-------------------------------------------------------------------------------
Errors(e) ==
    LET N == DOMAIN e.pre.x
        P == DOMAIN e.pts
    IN IF e.how # "ok" THEN {"the run to end"}
       ELSE IF ~e.sound THEN {"a step from a sound state to end in a sound state"}
       ELSE IF e.only THEN (IF Part = "state" THEN {} ELSE UNION {VelErr(e, n) \cup MoveErr(e, n) : n \in N})
       ELSE IF Part = "bc" THEN UNION {BcErr(e, n) \cup VelErr(e, n) \cup ForceErr(e, n) : n \in N}
       ELSE IF Part = "step" THEN UNION {VelErr(e, n) \cup ForceErr(e, n) \cup MoveErr(e, n) \cup MassErr(e, n) : n \in N} \cup UNION {EnergyErr(e, i) \cup BalanceErr(e, i) \cup PushErr(e, i) : i \in P} \cup UNION {ShareErr(e, k) : k \in S(e)} \cup TotalErr(e)
       ELSE IF Part = "contact" THEN UNION {VelErr(e, n) \cup MoveErr(e, n) \cup MassErr(e, n) : n \in N} \cup UNION {EnergyErr(e, i) \cup BalanceErr(e, i) \cup PushErr(e, i) : i \in P} \cup UNION {ShareErr(e, k) : k \in S(e)} \cup ContactErr(e)
       ELSE IF Part = "bond" THEN UNION {VelErr(e, n) \cup MoveErr(e, n) \cup MassErr(e, n) : n \in N} \cup UNION {EnergyErr(e, i) \cup BalanceErr(e, i) \cup PushErr(e, i) : i \in P} \cup UNION {ShareErr(e, k) : k \in S(e)} \cup BondErr(e)
       ELSE IF Part = "matter" THEN UNION {VelErr(e, n) \cup ForceErr(e, n) \cup MoveErr(e, n) : n \in N} \cup UNION {EnergyErr(e, i) \cup BalanceErr(e, i) \cup PushErr(e, i) \cup StateErr(e, i) \cup StressErr(e, i) \cup GoneErr(e, i) : i \in P} \cup UNION {ShareErr(e, k) \cup GradErr(e, k) : k \in S(e)} \cup TotalErr(e)
       ELSE IF Part = "state" THEN UNION {StateErr(e, i) : i \in P} \cup UNION {VolErr(e, k) : k \in S(e)}
       ELSE UNION {FlowErr(e, k) : k \in S(e)} \cup UNION {HeatErr(e, n) \cup TempErr(e, n) \cup MassErr(e, n) : n \in N} \cup UNION {CancelErr(e, k) : k \in S(e)}

Init == l = 1
Next == /\ l <= Len(Log)
        /\ LET x == Errors(Log[l]) IN IF x = {} THEN TRUE ELSE PrintT("MISMATCH " \o ToString(l) \o " " \o ToString(x)) /\ FALSE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
===============================================================================
