-------------------------------- MODULE MCOutput -------------------------------
(* Two elements with up to two materials each, added one by one: what the      *)
(* fields of an output are.                                                    *)
EXTENDS Output
VARIABLE pts
Half == One \div 2
Vals == {One, 3 * One}
Point(e, mat, vf, den, sie) == [e |-> e, mat |-> mat, vf |-> vf, gvf |-> One, den |-> den, pres |-> den + sie, sie |-> sie, sspd |-> sie, mass |-> Mul(den, vf), st |-> [c \in 1 .. 9 |-> c * den], gone |-> 0]
State_ == [d |-> 3, elems |-> <<[c \in 1 .. 8 |-> c], [c \in 1 .. 8 |-> c + 4]>>, nmats |-> 3, pts |-> pts, vol |-> <<One, One>>]
Init == pts = <<>>
Next == Len(pts) < 4 /\ \E e \in 1 .. 2, mat \in 0 .. 2, vf \in {Half, One}, den \in Vals, sie \in Vals :
            /\ ~\E i \in DOMAIN pts : pts[i].e = e /\ pts[i].mat = mat
            /\ Sum([i \in DOMAIN In(State_, e) |-> In(State_, e)[i].vf]) + vf <= One
            /\ \A i \in DOMAIN pts : pts[i].mat < mat \/ (pts[i].mat = mat /\ pts[i].e < e)
            /\ pts' = Append(pts, Point(e, mat, vf, den, sie))
Spec == Init /\ [][Next]_pts
(* A full element: means lie between the values of its materials, and agree    *)
(* with the only one; mass over volume is density.                             *)
Full(k) == Sum([i \in DOMAIN In(State_, k) |-> In(State_, k)[i].vf]) = One
Between == \A k \in 1 .. 2 : Full(k) =>
    LET q == In(State_, k)
        At(name) == ElemRow(State_, k, name)[1]
        Ok(name, f(_)) == /\ \E i \in DOMAIN q : f(q[i]) <= At(name) + 2
                          /\ \E i \in DOMAIN q : f(q[i]) >= At(name) - 2
                          /\ (Len(q) = 1 => At(name) = f(q[1]))
        den(p) == p.den
        pres(p) == p.pres
        sie(p) == p.sie
    IN Ok("den", den) /\ Ok("pres", pres) /\ Ok("sie", sie) /\ At("mass") = At("den")
(* Materials nowhere on the mesh have no file; the others are in order.        *)
Asked == [elem |-> <<"sie">>, node |-> <<"vel", "force">>, mat |-> <<"volfrac">>, gauss |-> <<"volume">>]
FilesOk == LET f == Files(State_, Asked) IN /\ f[1] = -1
                                            /\ {f[i] : i \in 2 .. Len(f)} = {pts[i].mat : i \in DOMAIN pts}
                                            /\ \A i, j \in DOMAIN f : i < j => f[i] < f[j]
NamesOk == ElemNames(Asked) = {"sie", "mass", "vol"} /\ NodeNames(Asked) = {"node_vel", "node_accel"} /\ MatNames(Asked) = {"mat_volfrac", "mat_geo_volfrac"}
===============================================================================
