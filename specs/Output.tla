--------------------------------- MODULE Output --------------------------------
(* What the output files of a run say: the mesh and the fields asked for, made *)
(* from the state of the run.  Numbers are fixed-point (module Fixed).         *)
(*                                                                             *)
(* A state s has elems (sequences of nodes), x, v, v0 (positions, velocities,  *)
(* velocities before the step), m, T, gl of nodes, vol, ls, vg of elements,    *)
(* and pts: the materials in the elements, each with e, mat, vf, gvf (share of *)
(* the volume), den, pres, sie, sspd, mass, st (stress), gone (1 if eroded).   *)
EXTENDS Fixed, FiniteSets, TLC
Three(a) == IF Len(a) = 3 THEN a ELSE a \o <<0>>
In(s, k) == SelectSeq(s.pts, LAMBDA p : p.e = k)
Of(s, mat) == SelectSeq(s.pts, LAMBDA p : p.mat = mat)
Share(p) == Mul(p.vf, p.gvf)
Elements(s) == DOMAIN s.elems

(* The value of an element: the mean over its materials by volume; masses add, *)
(* the specific energy is the mean by mass.  Rows are sequences of components. *)
Mean(s, k, f(_)) == LET q == In(s, k) IN Sum([i \in DOMAIN q |-> Mul(f(q[i]), Share(q[i]))])
ElemRow(s, k, name) ==
    CASE name = "den" -> LET f(p) == p.den IN <<Mean(s, k, f)>>
      [] name = "pres" -> LET f(p) == p.pres IN <<Mean(s, k, f)>>
      [] name = "sspd" -> LET f(p) == p.sspd IN <<Mean(s, k, f)>>
      [] name = "mass" -> LET q == In(s, k) IN <<Sum([i \in DOMAIN q |-> q[i].mass])>>
      [] name = "sie" -> LET q == In(s, k)
                             m == Sum([i \in DOMAIN q |-> q[i].mass])
                             top == CHOOSE a \in {q[i].sie : i \in DOMAIN q} : \A i \in DOMAIN q : q[i].sie <= a
                         IN <<IF m = 0 THEN 0 ELSE top - Div(Sum([i \in DOMAIN q |-> Mul(q[i].mass, top - q[i].sie)]), m)>>
      [] name = "stress" -> [c \in 1 .. 9 |-> LET f(p) == p.st[c] IN Mean(s, k, f)]
      [] name = "vol" -> <<s.vol[k]>>
      [] name = "level_set" -> <<s.ls[k]>>
      [] name = "vel_grad" -> s.vg[k]
NodeRow(s, n, name) ==
    CASE name = "node_coords" -> Three(s.x[n])
      [] name = "node_vel" -> Three(s.v[n])
      [] name = "node_mass" -> <<s.m[n]>>
      [] name = "node_temp" -> <<s.T[n]>>
      [] name = "node_grad_lvlset" -> Three(s.gl[n])
MatRow(p, name) ==
    CASE name = "mat_den" -> <<p.den>>
      [] name = "mat_pres" -> <<p.pres>>
      [] name = "mat_sie" -> <<p.sie>>
      [] name = "mat_sspd" -> <<p.sspd>>
      [] name = "mat_mass" -> <<p.mass>>
      [] name = "mat_volfrac" -> <<p.vf>>
      [] name = "mat_geo_volfrac" -> <<p.gvf>>
      [] name = "mat_eroded" -> <<p.gone>>
      [] name = "mat_stress" -> p.st

(* The names of the fields a deck asks for.                                    *)
Range_(s) == {s[i] : i \in DOMAIN s}
ElemNames(a) == Range_(a.elem) \cup {IF x = "volume" THEN "vol" ELSE x : x \in Range_(a.gauss)} \cup IF "sie" \in Range_(a.elem) THEN {"mass"} ELSE {}
NodeNames(a) == UNION {CASE x = "vel" -> {"node_vel", "node_accel"} [] x = "grad_level_set" -> {"node_grad_lvlset"} [] x = "force" -> {} [] OTHER -> {"node_" \o x} : x \in Range_(a.node)}
MatNames(a) == UNION {IF x = "volfrac" THEN {"mat_volfrac", "mat_geo_volfrac"} ELSE {"mat_" \o x} : x \in Range_(a.mat)}

(* Which files belong to an output: the mesh, if a field of it is asked for,   *)
(* and every material that is anywhere, if a field of materials is.            *)
Materials(s) == SelectSeq([i \in 1 .. s.nmats |-> i - 1], LAMBDA k : Of(s, k) # <<>>)
Files(s, a) == (IF ElemNames(a) \cup NodeNames(a) # {} THEN <<-1>> ELSE <<>>) \o (IF MatNames(a) # {} THEN Materials(s) ELSE <<>>)
CellType(d) == IF d = 3 THEN 11 ELSE 9
EnsightOrder(d) == IF d = 3 THEN <<1, 2, 4, 3, 5, 6, 8, 7>> ELSE <<1, 2, 3, 4>>

(* The centre of an element and its mean speed (squared).                      *)
Centre(s, k) == LET p == VSum([c \in DOMAIN s.elems[k] |-> Three(s.x[s.elems[k][c]])], 3) IN [d \in 1 .. 3 |-> p[d] \div Len(s.elems[k])]
Flow(s, k) == LET p == VSum([c \in DOMAIN s.elems[k] |-> Three(s.v[s.elems[k][c]])], 3) IN [d \in 1 .. 3 |-> p[d] \div Len(s.elems[k])]
===============================================================================
