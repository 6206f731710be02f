-------------------------------- MODULE MCSetup --------------------------------
(* Applying regions one after another to the elements of a mesh.               *)
EXTENDS Setup
CONSTANTS Regions, Max
VARIABLES mesh, state, rs
vars == <<mesh, state, rs>>

H == 512
Mesh(dims, n) == [kind |-> "box", dims |-> dims, n |-> n, org |-> <<-512, 0, 512>>, h |-> <<H, 2 * H, H>>]
Meshes == {Mesh(2, <<i, j>>) : i \in 1 .. 2, j \in 1 .. 2} \cup {Mesh(3, <<i, j, k>>) : i \in 1 .. 2, j \in 1 .. 2, k \in 1 .. 2}
\* regions over a small pool
Vols == {[vol |-> "global"], [vol |-> "box", lo |-> <<-512, 0, -2048>>, hi |-> <<0, 1024, 4096>>], [vol |-> "sphere", org |-> <<0, 512, 0>>, r |-> <<0, 700>>],
         [vol |-> "cylinder", org |-> <<0, 0, 0>>, r |-> <<512, 1400>>, lo |-> <<0, 0, -99>>, hi |-> <<0, 0, 800>>]}
Shares == {[t |-> "uniform", v |-> 4, s |-> 0], [t |-> "uniform", v |-> 1, s |-> 0], [t |-> "x_linear", v |-> 2, s |-> 4]}
Pool == {v @@ [mat |-> m, vf |-> f] : v \in Vols, m \in 0 .. 1, f \in Shares}

Init == mesh \in Meshes /\ rs = <<>> /\ state = [e \in Elems(mesh) |-> <<>>]
Apply(r) == LET all == Append(rs, r) IN
    /\ rs' = all
    /\ state' = [e \in DOMAIN state |-> IF InVolume(r, e, 0) THEN Fill(state[e], all, Len(all), Share(r, e)) ELSE state[e]]
    /\ UNCHANGED mesh
Next == Len(rs) < Regions /\ \E r \in Pool : Apply(r)
Spec == Init /\ [][Next]_vars

(* What the fills mean, without the machine: a bin of an element is the last   *)
(* region of its material over the element since the last one that filled it.  *)
OverElem(e) == {i \in DOMAIN rs : InVolume(rs[i], e, 0)}
LastFull(e) == LET f == {i \in OverElem(e) : Share(rs[i], e) = 4096} IN IF f = {} THEN 0 ELSE CHOOSE i \in f : \A j \in f : j <= i
Bins == \A e \in DOMAIN state :
    LET live == {i \in OverElem(e) : i >= LastFull(e)}
        last == {i \in live : \A j \in live : rs[j].mat = rs[i].mat => j <= i}
    IN Range(state[e]) = {[fill |-> i, share |-> Share(rs[i], e)] : i \in last} /\ Len(state[e]) = Cardinality(last)
OneBinPerMaterial == \A e \in DOMAIN state : \A a, b \in DOMAIN state[e] : a # b => rs[state[e][a].fill].mat # rs[state[e][b].fill].mat
Outside == [][\A e \in DOMAIN state : state'[e] # state[e] => InVolume(rs'[Len(rs')], e, 0)]_vars
AllAtOnce == \A e \in DOMAIN state : state[e] = FillAll(<<>>, rs, 1, e, 0)

(* The mesh fills its box: every inner face joins two elements, the boundary   *)
(* lies on the six (four) planes and has the right number of faces.            *)
Geometry ==
    LET es == Elems(mesh)
        n == mesh.n
        b == Boundary(es)
        plane(t, at) == [type |-> t, at |-> at, tol |-> 0, org |-> <<0, 0, 0>>]
        hi(d) == mesh.org[d] + n[d] * mesh.h[d]
        T == <<"x_plane", "y_plane", "z_plane">>
        sides == {FaceSet(b, plane(T[d], mesh.org[d])) : d \in 1 .. mesh.dims} \cup {FaceSet(b, plane(T[d], hi(d))) : d \in 1 .. mesh.dims}
        Prod(s) == IF Len(s) = 2 THEN s[1] * s[2] ELSE s[1] * s[2] * s[3]
    IN rs = <<>> =>
        /\ Cardinality(es) = Prod(n)
        /\ Cardinality(NodesOf(es)) = Prod([d \in DOMAIN n |-> n[d] + 1])
        /\ \A e \in es : Cardinality(Range(e)) = Len(e)
        /\ \A f \in UNION {Faces(e) : e \in es} : Cardinality({e \in es : f \in Faces(e)}) = (IF f \in b THEN 1 ELSE 2)
        /\ UNION sides = b /\ \A s, t \in sides : s # t => s \cap t = {}
        /\ Cardinality(b) = (IF mesh.dims = 2 THEN 2 * (n[1] + n[2]) ELSE 2 * (n[1] * n[2] + n[2] * n[3] + n[1] * n[3]))
        /\ \A p \in UNION b : p \in NodesOf(es)
===============================================================================
