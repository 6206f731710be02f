-------------------------------- MODULE Contact ---------------------------------
(* Contact of bodies: where nodes of one lie against faces of another, and the *)
(* forces between them that keep them apart.                                   *)
EXTENDS Hydro

(* Faces with four nodes q, outward: points of them by coordinates s and t from *)
(* -1 to 1, and the share of each node there.                                  *)
Shares(s, t) == <<Mul(One - s, One - t) \div 4, Mul(One + s, One - t) \div 4, Mul(One + s, One + t) \div 4, Mul(One - s, One + t) \div 4>>
Spot(q, w) == [d \in 1 .. 3 |-> Sum([i \in 1 .. 4 |-> Mul(w[i], q[i][d])])]
Outwards(q) == Cross(VSub(q[3], q[1]), VSub(q[4], q[2]))
UnitOf(v) ==
    LET big == Largest(v)
        u == TLCEval([d \in 1 .. 3 |-> Div(v[d], big)])
        n == TLCEval(Sqrt(Dot(u, u)))
    IN [d \in 1 .. 3 |-> Div(u[d], n)]
Length(v) == LET m == Largest(v) IN IF m < 64 THEN 0 ELSE LET u == TLCEval([d \in DOMAIN v |-> Div(v[d], m)]) IN Mul(m, Sqrt(Dot(u, u)))
(* Where p lies against the face, looking along the axis the face is most      *)
(* normal to: coordinates and distance along the normal (positive outside), or *)
(* nothing where it cannot be told.                                            *)
Nowhere == <<99 * One, 99 * One, 99 * One>>
Divided(a, b) == IF b > 0 THEN Div(a, b) ELSE Div(-a, -b)
Against(p, q) ==
    LET nrm == TLCEval(Outwards(q))
        ax == CHOOSE a \in 1 .. 3 : Size(nrm[a]) = Largest(nrm)
        i == (ax % 3) + 1
        j == (i % 3) + 1
        mid(d) == (q[1][d] + q[2][d] + q[3][d] + q[4][d]) \div 4
        along(d) == (q[2][d] + q[3][d] - q[1][d] - q[4][d]) \div 4
        across(d) == (q[3][d] + q[4][d] - q[1][d] - q[2][d]) \div 4
        twist(d) == (q[1][d] + q[3][d] - q[2][d] - q[4][d]) \div 4
        c == TLCEval([d \in {i, j} |-> <<mid(d) - p[d], along(d), across(d), twist(d)>>])
        step(z) ==
            IF z = Nowhere THEN z
            ELSE LET f(d) == c[d][1] + Mul(z[1], c[d][2]) + Mul(z[2], c[d][3]) + Mul(Mul(z[1], z[2]), c[d][4])
                     fs(d) == c[d][2] + Mul(z[2], c[d][4])
                     ft(d) == c[d][3] + Mul(z[1], c[d][4])
                     det == Mul(fs(i), ft(j)) - Mul(ft(i), fs(j))
                     ds == Divided(Mul(ft(i), f(j)) - Mul(ft(j), f(i)), det)
                     dt == Divided(Mul(fs(j), f(i)) - Mul(fs(i), f(j)), det)
                 IN IF Size(det) < 2048 \/ Size(ds) > 8 * One \/ Size(dt) > 8 * One THEN Nowhere
                    ELSE IF Size(z[1] + ds) > 4 * One \/ Size(z[2] + dt) > 4 * One THEN Nowhere
                    ELSE TLCEval(<<z[1] + ds, z[2] + dt, 0>>)
        at == FoldLeft(LAMBDA z, k : step(z), <<0, 0, 0>>, <<1, 2, 3, 4, 5>>)
    IN IF Largest(nrm) < 2048 THEN Nowhere
       ELSE LET w == TLCEval(at)
            IN IF w = Nowhere THEN w ELSE <<w[1], w[2], Dot(VSub(p, Spot(q, Shares(w[1], w[2]))), UnitOf(nrm))>>
Over(z, reach) == Size(z[1]) < reach /\ Size(z[2]) < reach

(* Forces on points at places x add up to none, and do not turn.               *)
NoNet(f, tol) == Largest(VSum(f, 3)) <= tol
NoTurn(x, f, tol) == Largest(VSum([n \in DOMAIN x |-> Cross(x[n], f[n])], 3)) <= tol

(* A node (of mass m) pressed against shares w of nodes (of masses ms): how far *)
(* a force of one moves them apart within a step, and the force that, added to  *)
(* what is there, would just close the distance.  Contact never pulls.         *)
Give(m, ms, w, dt) == Mul(Mul(dt, dt) \div 2, Div(One, m) + Sum([i \in DOMAIN w |-> Div(Mul(w[i], w[i]), ms[i])]))
Pressed(force, gap, give, part) == LET f == force - (Divided(gap, give) \div part) IN IF f > 0 THEN f ELSE 0
===============================================================================
