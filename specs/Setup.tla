--------------------------------- MODULE Setup ---------------------------------
(* What a run of the multiphysics code starts from: the elements of the mesh,  *)
(* the boundary sets, and the materials and fields the regions fill.           *)
(*                                                                             *)
(* Positions are sequences of two or three integers in units of 1/1024, other  *)
(* numbers of a deck are in quarters.  An element is the sequence of its node  *)
(* positions (in the local order of its nodes); numberings are not specified.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

U == 1024
Q == 4
Abs(x) == IF x < 0 THEN -x ELSE x
Range(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Sum(_, _)
Sum(f, i) == IF i = 0 THEN 0 ELSE f[i] + Sum(f, i - 1)
RECURSIVE Newton(_, _)
Newton(x, g) == LET h == (g + x \div g) \div 2 IN IF h >= g THEN g ELSE Newton(x, h)
ISqrt(x) == IF x = 0 THEN 0 ELSE Newton(x, IF x > 46340 * 46340 - 1 THEN 46340 ELSE (x \div 2) + 1)   \* the floor of the root

-------------------------------------------------------------------------------
(* Meshes.  box: n cells of size h from org.  polar: n[1] radial and n[2]      *)
(* angular cells between the radii r and the angles a, in steps of 15 degrees. *)
(* file: the elements themselves, with the part each belongs to.               *)
Corners(dims) == IF dims = 3 THEN [l \in 1 .. 8 |-> <<(l - 1) % 2, ((l - 1) \div 2) % 2, (l - 1) \div 4>>]
                 ELSE <<<<0, 0>>, <<1, 0>>, <<1, 1>>, <<0, 1>>>>                         \* counter-clockwise
Cells(m) == IF m.dims = 3 THEN {<<i, j, k>> : i \in 0 .. m.n[1] - 1, j \in 0 .. m.n[2] - 1, k \in 0 .. m.n[3] - 1}
            ELSE {<<i, j>> : i \in 0 .. m.n[1] - 1, j \in 0 .. m.n[2] - 1}
Cos15 == <<100000, 96593, 86603, 70711, 50000, 25882, 0>>                               \* 0, 15, .. 90 degrees
Cos(a) == IF a <= 6 THEN Cos15[a + 1] ELSE -Cos15[13 - a]
Sin(a) == Cos(IF a <= 6 THEN 6 - a ELSE a - 6)
Scale(r, c) == ((r * (c \div 5)) + 10000) \div 20000                                    \* r * c / 100000, rounded
Point(m, g) == IF m.kind = "polar"
               THEN LET r == m.r[1] + (g[1] * (m.r[2] - m.r[1])) \div m.n[1]
                        a == m.a[1] + (g[2] * (m.a[2] - m.a[1])) \div m.n[2]
                    IN <<m.org[1] + Scale(r, Cos(a)), m.org[2] + Scale(r, Sin(a))>>
               ELSE [d \in 1 .. m.dims |-> m.org[d] + g[d] * m.h[d]]
CellElem(m, c) == [l \in DOMAIN Corners(m.dims) |-> Point(m, [d \in 1 .. m.dims |-> c[d] + Corners(m.dims)[l][d]])]
Elems(m) == IF m.kind = "file" THEN Range(m.elems) ELSE {CellElem(m, c) : c \in Cells(m)}
NodesOf(es) == UNION {Range(e) : e \in es}

(* The faces of an element, as sets of nodes; the boundary of a mesh.          *)
FaceLids(dims) == IF dims = 3 THEN {{1, 3, 5, 7}, {2, 4, 6, 8}, {1, 2, 5, 6}, {3, 4, 7, 8}, {1, 2, 3, 4}, {5, 6, 7, 8}}
                  ELSE {{1, 2}, {2, 3}, {3, 4}, {4, 1}}
Faces(e) == {{e[l] : l \in f} : f \in FaceLids(Len(e[1]))}
Boundary(es) == LET all == UNION {Faces(e) : e \in es}
                IN {f \in all : \A e1, e2 \in {e \in es : f \subseteq Range(e)} : e1 = e2}

(* The volume of an element, as an integer: of a hexahedron 12 times, with the *)
(* faces bilinear; of a quadrilateral that is turned about the x axis 6 times, *)
(* per radian.  In units of u.                                                 *)
Det(a, b, c) == a[1] * (b[2] * c[3] - b[3] * c[2]) + a[2] * (b[3] * c[1] - b[1] * c[3]) + a[3] * (b[1] * c[2] - b[2] * c[1])
Vol(e, u) ==
    IF Len(e[1]) = 3
    THEN LET P(k) == [d \in 1 .. 3 |-> (e[k][d] - e[1][d]) \div u]
             D(i, j, k) == Det(P(i), P(j), P(k))
             F(q) == D(q[1], q[2], q[3]) + D(q[1], q[3], q[4]) + D(q[1], q[2], q[4]) + D(q[2], q[3], q[4])
             fs == <<<<1, 5, 7, 3>>, <<2, 4, 8, 6>>, <<1, 2, 6, 5>>, <<3, 7, 8, 4>>, <<1, 3, 4, 2>>, <<5, 6, 8, 7>>>>   \* outward
         IN Sum([f \in DOMAIN fs |-> F(fs[f])], Len(fs))
    ELSE LET X(k) == (e[((k - 1) % 4) + 1][1] - e[1][1]) \div u
             Y(k) == e[((k - 1) % 4) + 1][2] \div u
         IN Sum([k \in 1 .. 4 |-> (X(k) * Y(k + 1) - X(k + 1) * Y(k)) * (Y(k) + Y(k + 1))], 4)
NearVol(v, w) == Abs(v - w) <= Abs(w) \div 12 + 9999

-------------------------------------------------------------------------------
(* Boundary sets: the boundary faces with every node on a surface.             *)
Coord(p, d) == IF d \in DOMAIN p THEN p[d] ELSE 0
Dist2(p, o, n) == LET D(d) == Coord(p, d) - o[d] IN D(1) * D(1) + D(2) * D(2) + (IF n = 3 THEN D(3) * D(3) ELSE 0)
Axis(t) == CASE t = "x_plane" -> 1 [] t = "y_plane" -> 2 [] t = "z_plane" -> 3
On(s, p) == IF s.type \in {"cylinder", "sphere"}
            THEN LET d2 == Dist2(p, s.org, IF s.type = "sphere" THEN 3 ELSE 2)
                 IN (s.at <= s.tol \/ (s.at - s.tol) * (s.at - s.tol) <= d2) /\ s.at + s.tol >= 0 /\ d2 <= (s.at + s.tol) * (s.at + s.tol)
            ELSE Abs(Coord(p, Axis(s.type)) - s.at) <= s.tol
FaceSet(bdy, s) == {f \in bdy : \A p \in f : On(s, p)}
NodeSet(bdy, s) == UNION FaceSet(bdy, s)

-------------------------------------------------------------------------------
(* Regions.  An element is in a region when the mean of its nodes is.          *)
Mid(e) == [d \in 1 .. Len(e[1]) |-> Sum([l \in DOMAIN e |-> e[l][d]], Len(e))]           \* Len(e) times the mean
InVolume(r, e, part) ==
    LET n == Len(e)
        c == Mid(e)
        C(d) == Coord(c, d)
        c2(k) == Dist2([d \in 1 .. Len(c) |-> C(d) \div n], r.org, k)                    \* centres are multiples of the unit
        In(x, lo, hi) == n * lo <= x /\ x <= n * hi
        Ring(d2) == r.r[1] * r.r[1] <= d2 /\ d2 <= r.r[2] * r.r[2]
    IN CASE r.vol = "global" -> TRUE
         [] r.vol = "box" -> \A d \in 1 .. 3 : In(C(d), r.lo[d], r.hi[d])
         [] r.vol = "cylinder" -> Ring(c2(2)) /\ In(C(3), r.lo[3], r.hi[3])
         [] r.vol = "sphere" -> Ring(c2(3))
         [] r.vol = "vtu_file" -> part = r.part
         [] OTHER -> FALSE

(* A field f = [t, v, s, o] at a position, in 1/4096.                           *)
Field(f, p) ==
    LET lin(d) == f.s * Coord(p, d) + f.v * 1024 IN                                      \* s / 4 * x / 1024
    CASE f.t = "none" -> 4096
      [] f.t = "uniform" -> f.v * 1024
      [] f.t = "x_linear" -> lin(1) [] f.t = "y_linear" -> lin(2) [] f.t = "z_linear" -> lin(3)
      [] f.t = "radial" -> f.s * ISqrt(Dist2(p, f.o, 2)) - f.v * 1024
      [] f.t = "spherical" -> f.s * ISqrt(Dist2(p, f.o, 3)) - f.v * 1024
Centre(e) == [d \in 1 .. Len(e[1]) |-> Mid(e)[d] \div Len(e)]
Clamp(x) == IF x < 0 THEN 0 ELSE IF x > 4096 THEN 4096 ELSE x

(* The state of an element is a sequence of bins, the fill and its share.      *)
(* A region that fills an element alone replaces everything; another takes the *)
(* bin of its material, or a new one.                                          *)
Share(r, e) == Clamp(Field(r.vf, Centre(e)))
Fill(bins, rs, i, share) ==
    IF share = 4096 THEN <<[fill |-> i, share |-> share]>>
    ELSE LET same == {b \in DOMAIN bins : rs[bins[b].fill].mat = rs[i].mat}
             new == [fill |-> i, share |-> share]
         IN IF same = {} THEN Append(bins, new) ELSE [b \in DOMAIN bins |-> IF b \in same THEN new ELSE bins[b]]
RECURSIVE FillAll(_, _, _, _, _)
FillAll(bins, rs, i, e, part) ==
    IF i > Len(rs) THEN bins
    ELSE FillAll(IF InVolume(rs[i], e, part) THEN Fill(bins, rs, i, Share(rs[i], e)) ELSE bins, rs, i + 1, e, part)
\* whether some element has to hold more materials than it can at some time
RECURSIVE TooMany(_, _, _, _, _, _)
TooMany(bins, rs, i, e, part, max) ==
    \/ Len(bins) > max
    \/ i <= Len(rs) /\ TooMany(IF InVolume(rs[i], e, part) THEN Fill(bins, rs, i, Share(rs[i], e)) ELSE bins, rs, i + 1, e, part, max)

(* Velocities in 1/1024; radial and spherical ones point away from the origin. *)
Near(x, y, tol) == Abs(x - y) <= tol
SinPi(k) == LET T == <<0, 392, 724, 946, 1024>> m == k % 16 IN   \* sin(pi k / 8) in 1/1024
            CASE m <= 4 -> T[m + 1] [] m <= 8 -> T[9 - m] [] m <= 12 -> -T[m - 7] [] OTHER -> -T[17 - m]
CosPi(k) == SinPi(k + 4)
VelocityOk(r, p, v) ==
    LET n == Len(p)
        away(k) == LET r2 == Dist2(p, <<0, 0, 0>>, k)
                       d == ISqrt(r2)
                   IN IF r2 = 0 THEN \A i \in 1 .. n : v[i] = 0
                      ELSE /\ \A i \in 1 .. (IF k < n THEN k ELSE n) : Near(v[i] * d, r.speed * 256 * p[i], 2 * d + 2 * Abs(v[i]) + 4096)
                           /\ k < n => v[3] = 0
    IN CASE r.velt = "static" -> \A i \in 1 .. n : v[i] = 0
         [] r.velt = "cartesian" -> \A i \in 1 .. n : v[i] = r.vel[i] * 256
         [] r.velt = "radial" -> away(2)
         [] r.velt = "spherical" -> away(3)
         [] r.velt = "tg_vortex" -> LET k(i) == p[i] \div 128
                                    IN \E i \in 1 .. 2 : p[i] % 128 # 0
                                       \/ /\ Near(v[1] * 1024, SinPi(k(1)) * CosPi(k(2)), 3000) /\ Near(v[2] * 1024, -CosPi(k(1)) * SinPi(k(2)), 3000)
                                          /\ n = 3 => v[3] = 0
===============================================================================
