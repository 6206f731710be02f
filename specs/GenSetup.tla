-------------------------------- MODULE GenSetup -------------------------------
(* Random decks: a mesh, boundary surfaces and regions that fill it.           *)
EXTENDS Setup, SequencesExt, Json
VARIABLE deck
R(s) == RandomElement(IF deck = 0 THEN s ELSE s)                                      \* not a constant, so drawn anew in every state
Coin(k) == R(1 .. k) = 1
Place(lo, hi) == 128 * R(lo .. hi)

BoxMesh(dims, rz) ==
    [kind |-> "box", dims |-> dims, n |-> [d \in 1 .. dims |-> R(IF dims = 2 THEN 1 .. 4 ELSE 1 .. 3)], h |-> [d \in 1 .. dims |-> 128 * R({1, 2, 4})],
     org |-> [d \in 1 .. dims |-> IF rz THEN Place(0, 6) ELSE Place(-8, 8)]]
PolarMesh ==
    LET n1 == R(1 .. 3)
        n2 == R({1, 2, 3})
        a0 == R(0 .. 3)
        r0 == 128 * R(1 .. 6)
    IN [kind |-> "polar", dims |-> 2, n |-> <<n1, n2>>, r |-> <<r0, r0 + n1 * 128 * R(1 .. 3)>>, a |-> <<a0, a0 + n2 * R(1 .. (6 - a0) \div n2)>>, org |-> <<Place(0, 6), Place(0, 6)>>]
(* A mesh from a file: a box with its nodes moved and some elements left out.  *)
FileMesh(b, move, keep, part) ==
    LET E(e) == [l \in DOMAIN e |-> [d \in 1 .. b.dims |-> e[l][d] + move[e[l]][d]]]
        es == SetToSeq(keep)
    IN [kind |-> "file", dims |-> b.dims, elems |-> [i \in DOMAIN es |-> E(es[i])], part |-> [i \in DOMAIN es |-> part[es[i]]]]

Surface(m, nodes) ==
    LET p == R(nodes)
        t == R({"x_plane", "y_plane", "cylinder", "sphere"} \cup (IF m.dims = 3 THEN {"z_plane"} ELSE {}))
        o == IF Coin(2) THEN <<0, 0, 0>> ELSE [d \in 1 .. 3 |-> Place(-4, 4)]
        d2 == Dist2(p, o, IF t = "sphere" THEN 3 ELSE 2)
        at == IF t \in {"cylinder", "sphere"} THEN (IF m.kind = "polar" THEN R({m.r[1], m.r[2], m.r[1] + ((m.r[2] - m.r[1]) \div m.n[1])}) ELSE ISqrt(d2)) ELSE p[Axis(t)]
    IN [type |-> t, at |-> at, tol |-> IF m.kind = "polar" THEN 16 ELSE R({0, 0, 16, 128, 200}), org |-> IF m.kind = "polar" THEN m.org \o <<0>> ELSE o]

None == [t |-> "none", v |-> 0, s |-> 0, o |-> <<0, 0, 0>>]
Region(m, mats, full, parts) ==
    LET lo == [d \in 1 .. 3 |-> Place(-8, 8)]
        vols == IF m.kind = "polar" THEN {"global"} ELSE IF m.kind = "file" /\ parts THEN {"global", "box", "cylinder", "sphere", "vtu_file"} ELSE {"global", "box", "cylinder", "sphere"}
        lin == {"x_linear", "y_linear", "z_linear"}
        r1 == R({0, 0, 128 * R(0 .. 8)})
    IN [vol |-> IF full THEN "global" ELSE R(vols), mat |-> R(0 .. mats - 1), part |-> R(1 .. 3),
        lo |-> [d \in 1 .. 3 |-> IF d = 3 /\ m.dims = 2 THEN R({0, -128, 128}) ELSE lo[d]],
        hi |-> [d \in 1 .. 3 |-> IF d = 3 /\ m.dims = 2 THEN R({0, 256}) ELSE lo[d] + 128 * R(0 .. 20)],
        org |-> [d \in 1 .. 3 |-> IF Coin(2) THEN 0 ELSE Place(-4, 4)], r |-> <<r1, r1 + 128 * R(1 .. 14)>>,
        den |-> R(1 .. 40), energy |-> R({"sie", "ie", "both"}), sie |-> R(0 .. 9), ie |-> R(0 .. 9), temp |-> R(1 .. 99), cond |-> R(1 .. 9), heat |-> R(1 .. 9),
        vf |-> LET t == R({"none", "uniform", "uniform", "x_linear", "y_linear", "z_linear", "radial", "spherical"})
               IN IF full \/ t = "none" THEN None
                  ELSE [t |-> t, v |-> IF t \in {"radial", "spherical"} THEN 0 ELSE R(IF t = "uniform" THEN 0 .. 4 ELSE -4 .. 4), s |-> R(-4 .. 4), o |-> [d \in 1 .. 3 |-> IF d = 3 /\ m.dims = 2 THEN 0 ELSE Place(-4, 4)]],
        velt |-> R({"static", "cartesian", "cartesian", "radial", "spherical", "tg_vortex"}), vel |-> [d \in 1 .. 3 |-> R(-8 .. 8)], speed |-> R(-4 .. 4),
        ls |-> [t |-> R({"uniform", "radial", "spherical"} \cup lin), v |-> R(-8 .. 8), s |-> R(-4 .. 4), o |-> [d \in 1 .. 3 |-> IF d = 3 /\ m.dims = 2 THEN 0 ELSE Place(-4, 4)]]]

Deck(solver, m, parts) ==
    LET nodes == NodesOf(Elems(m))
        mats == R(1 .. 3)
        nr == R(1 .. 5)
        nb == R(0 .. 5)
    IN [solver |-> solver, mesh |-> m, mats |-> mats, max |-> R(1 .. 4), parts |-> parts,
        bcs |-> [i \in 1 .. nb |-> Surface(m, nodes)], regions |-> [i \in 1 .. nr |-> Region(m, mats, i = 1 /\ R(1 .. 4) > 1, parts)]]

Show(d) == deck' = 3 - deck /\ PrintT("CASE " \o ToJson(d))
Init == deck = 1
Next == \E solver \in {R({"dynx_FE", "dynx_FE", "thrmex_FE", "dynx_FE_rz", "dynx_FE_rz", "level_set", "level_set"})} :
        \E dims \in {IF solver = "dynx_FE_rz" THEN 2 ELSE IF solver = "level_set" THEN R(2 .. 3) ELSE 3} :
        \E kind \in {IF dims = 2 THEN R({"box", "polar"}) ELSE R({"box", "file", "file"})} :
        \E b \in {TLCEval(IF kind = "polar" THEN PolarMesh ELSE BoxMesh(dims, dims = 2))} :
        \E parts \in {dims = 3 /\ Coin(2)} :
        IF kind # "file" THEN \E d \in {TLCEval(Deck(solver, b, FALSE))} : Show(d)
        ELSE LET es == Elems(b) IN
             \E keep \in {LET k == TLCEval({e \in es : R(1 .. 5) > 1}) IN IF k = {} THEN es ELSE k} :
             \E move \in {TLCEval([p \in NodesOf(es) |-> [d \in 1 .. dims |-> 8 * R({0, 0, -3, -2, -1, 1, 2, 3})]])} :
             \E part \in {TLCEval([e \in es |-> R(1 .. 3)])} :
             \E m \in {TLCEval(FileMesh(b, move, keep, part))} :
             \E d \in {TLCEval(Deck(solver, m, parts))} : Show(d)
Spec == Init /\ [][Next]_deck
===============================================================================
