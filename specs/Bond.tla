---------------------------------- MODULE Bond ----------------------------------
(* Bonds between two bodies that lie face to face: what opens them, how that    *)
(* wears them out, and how they pull back.  A bond has long-term stiffness E,   *)
(* lengths un and ut (an opening of one of them counts one), wears at rate a1   *)
(* times the opening to the power of n quarters, and has parts of stiffness E   *)
(* that slacken with time tau.                                                  *)
EXTENDS Contact

Power(x, n) == IF n = 1 THEN Sqrt(Sqrt(x)) ELSE IF n = 2 THEN Sqrt(x) ELSE IF n = 4 THEN x ELSE Mul(x, x)
(* The opening u, and what it will be when it changes by w: along the normal n  *)
(* and (as a length) across it.                                                 *)
Opening(u, w, n) ==
    LET along == Dot(u, n)
        later == Dot(w, n)
        side == VSub(u, VMul(n, along))
    IN [un |-> along, ut |-> Length(side), un2 |-> along + later, ut2 |-> Length(VAdd(side, VSub(w, VMul(n, later))))]
Apartness(un, ut, p) == LET l == Length(<<Divided(un, p.un), Div(ut, p.ut)>>) IN IF l > 20 * One THEN 20 * One ELSE l
Part_(u, star, l) == IF l <= 0 THEN 0 ELSE Divided(Divided(u, star), l)

(* The area of a face with four corners, which need not be flat.                *)
Area(q) ==
    LET g == 605390
        along(t) == [d \in 1 .. 3 |-> (Mul(One - t, q[2][d] - q[1][d]) + Mul(One + t, q[3][d] - q[4][d])) \div 2]
        across(s) == [d \in 1 .. 3 |-> (Mul(One - s, q[4][d] - q[1][d]) + Mul(One + s, q[3][d] - q[2][d])) \div 2]
    IN Sum([k \in 1 .. 4 |-> Length(Cross(along(IF k <= 2 THEN g ELSE -g), across(IF k % 2 = 0 THEN g ELSE -g)))]) \div 4

(* A new bond, and what it is after a step of dt with opening o.                *)
New(p) == [hurt |-> 0, tn |-> 0, tt |-> 0, s |-> [j \in DOMAIN p.parts |-> 0]]
Bonded(p, z, o, dt) ==
    LET l == TLCEval(Apartness(o.un, o.ut, p))
        l2 == TLCEval(Apartness(o.un2, o.ut2, p))
        keep == TLCEval([j \in DOMAIN p.parts |-> Exp(-Div(dt, p.parts[j].tau))])
        mean == TLCEval([j \in DOMAIN p.parts |-> Mul(p.parts[j].E, Div(Mul(p.parts[j].tau, One - keep[j]), dt))])
        s2 == TLCEval([j \in DOMAIN p.parts |-> Mul(keep[j], z.s[j]) + Mul(mean[j], l2 - l)])
        grow == IF l2 > l THEN Mul(Mul(p.a1, dt), Power((l + l2) \div 2, p.n)) ELSE 0
        hurt2 == TLCEval(IF z.hurt + grow > One THEN One ELSE z.hurt + grow)
        hold == TLCEval(Mul(p.E, l) + Sum(s2))
        full == TLCEval(hold + Mul(p.E + Sum(mean), l2 - l) - Sum([j \in DOMAIN p.parts |-> Mul(One - keep[j], s2[j])]))
        pull(a, a2, star) == Mul(Mul(Part_(a2, star, l2), One - hurt2), full) - Mul(Mul(Part_(a, star, l), One - z.hurt), hold)
    IN [hurt |-> hurt2, tn |-> z.tn + pull(o.un, o.un2, p.un), tt |-> z.tt + pull(o.ut, o.ut2, p.ut), s |-> s2]
===============================================================================
