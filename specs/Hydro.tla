--------------------------------- MODULE Hydro ---------------------------------
(* One step of the multiphysics solvers: what the forces on the corners of the *)
(* elements, the boundary conditions and the materials make of the state.      *)
(* Numbers are fixed-point (module Fixed).                                     *)
EXTENDS Fixed, FiniteSets, TLC

-------------------------------------------------------------------------------
(* Geometry of hexahedra: p is the sequence of the 8 nodes, x fastest.         *)
HexFaces == << <<1, 5, 7, 3>>, <<2, 4, 8, 6>>, <<1, 2, 6, 5>>, <<3, 7, 8, 4>>, <<1, 3, 4, 2>>, <<5, 6, 8, 7>> >>     \* outward
(* The shares of the four nodes of a face in its (outward) area: the integral  *)
(* of the shape function of each node over the bilinear face.                  *)
FaceShares(p) ==
    LET q(i, j) == VSub(p[i], p[j])
        u == VAdd(q(2, 1), q(3, 4))                  \* four times the derivatives
        v == VAdd(q(4, 1), q(3, 2))
        w == VAdd(q(1, 2), q(3, 4))
        uv == Cross(u, v)
        uw == Cross(u, w)
        wv == Cross(w, v)
    IN [i \in 1 .. 4 |-> [d \in 1 .. 3 |-> (3 * uv[d] + (IF i \in {2, 3} THEN uw[d] ELSE -uw[d]) + (IF i \in {3, 4} THEN wv[d] ELSE -wv[d])) \div 48]]
FaceArea(p) == LET c == Cross(VSub(p[3], p[1]), VSub(p[4], p[2])) IN [d \in 1 .. 3 |-> c[d] \div 2]
(* The outward area of every corner of an element: the change of its volume    *)
(* with the place of the node.                                                 *)
CornerAreas(p) ==
    LET sh == TLCEval([f \in 1 .. 6 |-> FaceShares([i \in 1 .. 4 |-> p[HexFaces[f][i]]])])
        of(l) == {<<f, i>> \in (1 .. 6) \X (1 .. 4) : HexFaces[f][i] = l}
    IN [l \in 1 .. 8 |-> LET s == SetToSeq(of(l)) IN VSum([k \in DOMAIN s |-> sh[s[k][1]][s[k][2]]], 3)]
HexVolume(p, areas) == Sum([l \in 1 .. 8 |-> Dot(VSub(p[l], p[1]), areas[l])]) \div 3

-------------------------------------------------------------------------------
(* Velocities at the boundary.  A condition b: its model, direction dir with   *)
(* norm k, velocities v, and the times from and to between which it holds (in  *)
(* units of 1e-9).                                                             *)
Along(v, b) == Sum([d \in DOMAIN v |-> v[d] * b.dir[d]])            \* times the norm
Set(v, b, speed) == [d \in DOMAIN v |-> v[d] + (((speed * b.k - Along(v, b)) \div b.k) * b.dir[d]) \div b.k]
Fixed(n) == ((n \div 1000000) * One) \div 1000 + (((n % 1000000) \div 1000) * One) \div 1000000          \* a time in units of 1e-9
Active(b, t) == t >= b.from /\ t <= b.to
Speed(b, tau) == IF b.model = "piston" THEN b.v[1] + Mul(b.v[2], tau) + (Mul(b.v[3], Mul(tau, tau)) \div 2)
                 ELSE Mul(b.v[1], Exp(-Mul(b.v[2], tau)))
Held(v, b, on, tau) ==
    IF b.model = "fixed" THEN [d \in DOMAIN v |-> 0]
    ELSE IF b.model = "constant" THEN [d \in DOMAIN v |-> b.v[d]]
    ELSE IF b.model = "reflected" THEN Set(v, b, 0)
    ELSE IF on THEN Set(v, b, Speed(b, tau)) ELSE v
(* v after the conditions bs, in order, that hold its node at time t.  Rounded, *)
(* it cannot be told whether a condition holds at its very first or last moment. *)
Doubt(b, t) == b.model \in {"piston", "time_varying"} /\ (Size(t - b.from) <= 2 \/ Size(t - b.to) <= 2)
HeldAll(v, bs, t) == FoldLeft(LAMBDA a, b : Held(a, b, Active(b, t), IF Active(b, t) THEN Fixed(t - b.from) ELSE 0), v, bs)

-------------------------------------------------------------------------------
(* A step of length dt: forces change velocities, velocities move the nodes,   *)
(* and the work of the forces is taken from the energy of the material.        *)
Pushed(v, f, m, dt) == [d \in DOMAIN v |-> v[d] + Div(Mul(dt, f[d]), m)]
Carried(x, v, w, dt) == [d \in DOMAIN x |-> x[d] + (Mul(dt, v[d] + w[d]) \div 2)]
Work(f, v, w, dt) == Mul(dt, Dot(f, VAdd(v, w))) \div 2
(* The force of a stress on a quarter of a face with outward area a.           *)
StressForce(sig, a) ==
    LET s(i, j) == IF i = j THEN sig[i] ELSE IF i + j = 5 THEN sig[4] ELSE IF i + j = 4 THEN sig[5] ELSE sig[6]
    IN [i \in 1 .. 3 |-> (Mul(s(i, 1), a[1]) + Mul(s(i, 2), a[2]) + Mul(s(i, 3), a[3])) \div 4]
Kinetic(v, m) == Mul(m, Dot(v, v)) \div 2
Pressure(gam, den, sie) == ((gam - 4) * Mul(den, sie)) \div 4                \* gam in quarters
SoundSquared(gam, sie) == Mul(gam * (gam - 4) * 65536, sie)

-------------------------------------------------------------------------------
(* Quadrilaterals about an axis: the outward normals of the corners, the share *)
(* of each in the area, and the area.                                          *)
Round(c) == ((c - 1) % 4) + 1
QuadNormals(p) == [c \in 1 .. 4 |-> LET n == p[Round(c + 1)]
                                         q == p[Round(c + 3)]
                                     IN <<(n[2] - q[2]) \div 2, (q[1] - n[1]) \div 2>>]
Triangle(a, b, c) == (Mul(b[1] - a[1], c[2] - a[2]) - Mul(b[2] - a[2], c[1] - a[1])) \div 2
QuadShares(p) ==
    LET mid == LET s == VSum(p, 2) IN <<s[1] \div 4, s[2] \div 4>>
        t == TLCEval([c \in 1 .. 4 |-> Triangle(p[c], p[Round(c + 1)], mid)])
    IN [c \in 1 .. 4 |-> (5 * t[Round(c + 3)] + 5 * t[c] + t[Round(c + 1)] + t[Round(c + 2)]) \div 12]

(* The materials: pressure and speed of sound (squared) of a gas, an elastic   *)
(* solid or void.                                                              *)
EosPressure(m, den, sie) ==
    CASE m.eos = "gamma" -> Pressure(m.gam, den, sie)
      [] m.eos = "elastic" -> (m.bulk * (Div(den, m.den0 * 262144) - One)) \div 4
      [] OTHER -> 0
EosSquared(m, den, sie) ==
    CASE m.eos = "gamma" -> SoundSquared(m.gam, sie)
      [] m.eos = "elastic" -> LET c == Div((3 * m.bulk + 4 * m.modulus) * 87381, den)
                                  least == m.least * m.least * 65536
                              IN IF c < least THEN least ELSE c
      [] OTHER -> 0

(* Stress: tensors are sequences of 9.  The stress a turning and deforming     *)
(* solid would have after dt, and what plastic flow leaves of it.              *)
Ij(a, i, j) == a[3 * i + j - 3]
Tensor(f(_, _)) == [c \in 1 .. 9 |-> f(((c - 1) \div 3) + 1, ((c - 1) % 3) + 1)]
Trace_(a) == Ij(a, 1, 1) + Ij(a, 2, 2) + Ij(a, 3, 3)
Stretch(grad) == LET tr == Trace_(grad) IN Tensor(LAMBDA i, j : Ij(grad, i, j) + Ij(grad, j, i) - (IF i = j THEN (2 * tr) \div 3 ELSE 0))         \* twice its deviator
Turned(s, grad) ==
    LET w(i, j) == Ij(grad, i, j) - Ij(grad, j, i)
    IN Tensor(LAMBDA i, j : Sum([k \in 1 .. 3 |-> Mul(w(i, k), Ij(s, k, j)) - Mul(Ij(s, i, k), w(k, j))]) \div 2)
Trial(s, grad, shear, dt) ==                                                 \* shear in quarters
    LET e == TLCEval(Stretch(grad))
        r == TLCEval(Turned(s, grad))
    IN [c \in 1 .. 9 |-> s[c] + Mul(dt, (shear * e[c]) \div 4 + r[c])]
(* About an axis, as the code has it (it should be as above): shear at half     *)
(* the rate, and products of stresses where the stress should turn.            *)
Deviator(s) == LET tr == Trace_(s) IN Tensor(LAMBDA i, j : Ij(s, i, j) - (IF i = j THEN tr \div 3 ELSE 0))
AxisTrial(s, grad, shear, dt) ==
    LET e == TLCEval(Stretch(grad))
        a(i, j) == Ij(s, i, j)
        d(i, j) == (Ij(grad, i, j) + Ij(grad, j, i)) \div 2
        w == (Ij(grad, 1, 2) - Ij(grad, 2, 1)) \div 2
        half == (a(1, 1) - a(2, 2)) \div 2
        mixed == Mul(d(1, 1), a(1, 2)) + Mul(a(1, 1), d(1, 2)) + Mul(d(1, 2), a(2, 2)) + Mul(a(1, 2), d(2, 2))
        odd(i, j) == CASE i = 1 /\ j = 1 -> 2 * Mul(half, Mul(d(1, 2), a(1, 2)) + Mul(d(1, 1), a(1, 1))) + 2 * Mul(a(1, 2), Mul(w, a(1, 2)))
                       [] i = 2 /\ j = 2 -> -2 * Mul(w, a(1, 2))
                       [] i # j /\ i + j = 3 -> Mul(a(1, 2), mixed) + 2 * Mul(half, Mul(half, w))
                       [] OTHER -> 0
    IN Tensor(LAMBDA i, j : IF i # j /\ i + j # 3 THEN 0
                            ELSE a(i, j) + Mul(dt, (shear * (IF i = j THEN Ij(e, i, j) ELSE Ij(e, i, j) \div 2)) \div 4 + odd(i, j)))
Largest(s) == FoldLeft(LAMBDA a, x : IF Size(x) > a THEN Size(x) ELSE a, 0, s)
(* The stress that counts (von Mises), as the largest component times a factor. *)
Unit(s) == LET big == Largest(s) IN [c \in 1 .. 9 |-> Div(s[c], big)]
Mises(u) == Sqrt((3 * Sum([c \in 1 .. 9 |-> Mul(u[c], u[c])])) \div 2)
Yielding(s, y) ==
    IF Largest(s) < 64 THEN s
    ELSE LET u == TLCEval(Unit(s))
             n == TLCEval(Mises(u))
         IN IF Mul(Largest(s), n) <= y THEN s ELSE [c \in 1 .. 9 |-> Div(Mul(y, u[c]), n)]
(* What the corner with normal a feels of a stress s and a pressure p.         *)
Felt(a, s, p) == [d \in DOMAIN a |-> Mul(a[d], p) - Sum([i \in DOMAIN a |-> Mul(a[i], Ij(s, i, d))])]
===============================================================================
