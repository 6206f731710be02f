-------------------------------- MODULE GenRun ---------------------------------
(* Random runs: small meshes, materials, boundary conditions and schedules, for *)
(* one or two solvers after each other.  Times are in units of 1e-9, velocities *)
(* and stresses in 64ths.                                                      *)
EXTENDS Setup, SequencesExt, Json, IOUtils
VARIABLE deck
Short == "SHORT" \in DOMAIN IOEnv                  \* a few steps only
Out == "OUT" \in DOMAIN IOEnv                      \* with all kinds of output
Mats == "MATS" \in DOMAIN IOEnv                    \* with all kinds of materials
Fronts == "FRONT" \in DOMAIN IOEnv                  \* level sets only
Bodies == "CONTACT" \in DOMAIN IOEnv                  \* two of them that meet
Bonds == "BOND" \in DOMAIN IOEnv                       \* two of them that are bonded
R(s) == RandomElement(IF deck = 0 THEN s ELSE s)
Coin(k) == R(1 .. k) = 1

RunMesh(dims) ==
    [kind |-> "box", dims |-> dims, n |-> IF dims = 2 THEN R({<<1, 1>>, <<2, 1>>, <<1, 3>>, <<2, 2>>, <<3, 2>>}) ELSE R({<<1, 1, 1>>, <<2, 1, 1>>, <<1, 1, 3>>, <<1, 2, 2>>, <<2, 2, 1>>}),
     h |-> [d \in 1 .. dims |-> R({512, 1024})], org |-> [d \in 1 .. dims |-> IF dims = 2 THEN R({0, 0, 1024}) ELSE 512 * R(-2 .. 2)]]
(* Its nodes moved, but not off its planes.                                    *)
Moves(b) == [p \in NodesOf(Elems(b)) |-> [d \in 1 .. 3 |-> IF p[d] \in {b.org[d], b.org[d] + b.n[d] * b.h[d]} THEN 0 ELSE 32 * R(-3 .. 3)]]
Moved(b, move) ==
    LET es == SetToSeq(Elems(b))
        Put(p) == [d \in 1 .. 3 |-> p[d] + move[p][d]]
    IN [kind |-> "file", dims |-> 3, elems |-> [i \in DOMAIN es |-> [l \in DOMAIN es[i] |-> Put(es[i][l])]], part |-> [i \in DOMAIN es |-> 1], org |-> b.org, n |-> b.n, h |-> b.h]

(* Two boxes, one after the other along an axis, shifted sideways; the first of *)
(* their elements are those of the first.                                      *)
TwoBoxes(axis) ==
    LET size == [n |-> [d \in 1 .. 3 |-> R({1, 1, 2})], h |-> [d \in 1 .. 3 |-> R({512, 1024})]]
        other == [n |-> [d \in 1 .. 3 |-> R({1, 1, 2})], h |-> [d \in 1 .. 3 |-> R({512, 1024})]]
        shift == [d \in 1 .. 3 |-> IF d = axis THEN R({0, 0, 4, 8, -16}) ELSE R({0, 0, 256, 128, -256, 384})]
        org == [d \in 1 .. 3 |-> 512 * R(-1 .. 1)]
    IN <<size @@ [org |-> org], other @@ [org |-> [d \in 1 .. 3 |-> org[d] + shift[d] + (IF d = axis THEN size.n[d] * size.h[d] ELSE 0)]]>>
(* Both of them leaning sideways by the same.                                  *)
Leaning(axis) == [over |-> R({0, 0, 2, 4, -3}), side |-> R({0, 0, 2, -4}), axis |-> axis]
Lean(p, l) ==
    LET i == (l.axis % 3) + 1
        j == (i % 3) + 1
        q == [p EXCEPT ![i] = @ + (l.over * p[l.axis]) \div 8]
    IN [q EXCEPT ![j] = @ + (l.side * q[i]) \div 8]
Pair(two, l) ==
    LET a == SetToSeq(Elems([kind |-> "box", dims |-> 3] @@ two[1]))
        b == SetToSeq(Elems([kind |-> "box", dims |-> 3] @@ two[2]))
        es == a \o b
    IN [kind |-> "file", dims |-> 3, elems |-> [k \in DOMAIN es |-> [c \in DOMAIN es[k] |-> Lean(es[k][c], l)]], apart |-> Len(a), part |-> [i \in 1 .. Len(a) + Len(b) |-> 1], org |-> two[1].org, n |-> two[1].n, h |-> two[1].h]

Direction(dims) == R(IF dims = 2 THEN {<<1, 0, 0>>, <<0, 1, 0>>, <<0, 3, 0>>, <<3, 4, 0>>, <<-4, 3, 0>>}
                     ELSE {<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<0, 0, -1>>, <<0, 2, 0>>, <<3, 4, 0>>, <<1, 2, 2>>, <<-2, 1, 2>>})
Boundary_(m, solvers, tf) ==
    LET i == R(DOMAIN solvers)
        kind == IF solvers[i].method = "thrmex_FE" THEN "temperature" ELSE IF solvers[i].method = "dynx_FE" /\ Coin(4) THEN "stress" ELSE "velocity"
        axis == R(1 .. m.dims)
        from == R({0, 0, tf \div 4})
    IN [solver |-> i - 1, type |-> <<"x_plane", "y_plane", "z_plane">>[axis], at |-> m.org[axis] + R({0, m.n[axis] * m.h[axis]}), tol |-> 8, org |-> <<0, 0, 0>>, kind |-> kind,
        model |-> IF Fronts THEN R({"fixed", "reflected", "reflected", "constant"}) ELSE IF kind = "velocity" THEN R({"fixed", "reflected", "reflected", "constant", "piston", "time_varying"})
                  ELSE IF kind = "stress" THEN R({"constant", "time_varying"}) ELSE R({"constant", "convection"}),
        dir |-> IF Fronts \/ Coin(2) THEN [d \in 1 .. 3 |-> IF d = axis THEN 1 ELSE 0] ELSE Direction(m.dims),
        v |-> [d \in 1 .. 3 |-> IF d > m.dims THEN 0 ELSE R(-64 .. 64)], sig |-> [d \in 1 .. 6 |-> R(-64 .. 64)], from |-> from, to |-> R({from + (tf \div 2), 2000000000}), temp |-> 4 * R(270 .. 330)]

(* The axis in 2D.                                                            *)
Axis_(i) == [solver |-> i, type |-> "y_plane", at |-> 0, tol |-> 8, org |-> <<0, 0, 0>>, kind |-> "velocity", model |-> "reflected", dir |-> <<0, 1, 0>>, v |-> <<0, 0, 0>>, sig |-> <<0, 0, 0, 0, 0, 0>>, from |-> 0, to |-> 0, temp |-> 0]
None == [t |-> "none", v |-> 0, s |-> 0, o |-> <<0, 0, 0>>]
RunFill(m, mats, full, method, i) ==
    LET lo == [d \in 1 .. 3 |-> IF d > m.dims THEN 0 ELSE m.org[d] + 512 * R(0 .. 1)]
        pairs == IF mats = 1 \/ Fronts THEN {<<"none", 0>>} ELSE {<<"none", 0>>, <<"uniform", 1>>, <<"uniform", 2>>, <<"uniform", 3>>}
        f == R(pairs)
    IN [solver |-> i - 1, vol |-> IF full THEN "global" ELSE "box", mat |-> IF full THEN (IF Out THEN R(0 .. mats - 1) ELSE 0) ELSE R(0 .. mats - 1), part |-> 0, lo |-> lo, hi |-> [d \in 1 .. 3 |-> lo[d] + 512 * R(1 .. 4)], org |-> <<0, 0, 0>>, r |-> <<0, 0>>,
        den |-> R(4 .. 16), energy |-> "sie", sie |-> R(1 .. 8), ie |-> 0, temp |-> 4 * R(270 .. 330), cond |-> R(1 .. 9), heat |-> R(1 .. 9),
        vf |-> IF full THEN None ELSE [t |-> f[1], v |-> f[2], s |-> 0, o |-> <<0, 0, 0>>],
        velt |-> R({"static", "cartesian"}), vel |-> [d \in 1 .. 3 |-> IF d > m.dims THEN 0 ELSE R(-4 .. 4)], speed |-> 0,
        ls |-> IF Fronts THEN [t |-> R({"uniform", "x_linear", "y_linear", "x_linear", "y_linear", "radial", "radial"} \cup IF m.dims = 3 THEN {"z_linear", "spherical", "spherical"} ELSE {}), v |-> R(-4 .. 4), s |-> R({-6, -4, -2, 1, 2, 4, 4}), o |-> [d \in 1 .. 3 |-> IF d > m.dims THEN 0 ELSE 128 * R(-8 .. 8)]]
               ELSE [t |-> R({"x_linear", "y_linear", "radial"}), v |-> R(-4 .. 4), s |-> R({-4, 4}), o |-> <<0, 0, 0>>]]

BodyFill(two, mats, axis, i) ==
    LET b == two[i]
        speed == R({0, 1, 2, 3, 4})
    IN [RunFill([dims |-> 3, org |-> b.org], mats, TRUE, "dynx_FE", 1) EXCEPT !.vol = "box", !.mat = R(0 .. mats - 1), !.lo = [d \in 1 .. 3 |-> IF d = axis THEN b.org[d] ELSE -20480], !.hi = [d \in 1 .. 3 |-> IF d = axis THEN b.org[d] + b.n[d] * b.h[d] ELSE 20480], !.vf = None, !.velt = "cartesian",
        !.vel = [d \in 1 .. 3 |-> IF d = axis THEN (IF i = 1 THEN speed ELSE -speed) ELSE R(-2 .. 2)]]

(* What is written: any order, each field at most once.                        *)
Some(s) == LET pick == TLCEval({x \in s : Coin(2)}) IN SetToSeq(pick)
Outs(solvers) ==
    LET heat == \E i \in DOMAIN solvers : solvers[i].method = "thrmex_FE"
        front == \E i \in DOMAIN solvers : solvers[i].method = "level_set"
        mat == IF front THEN {} ELSE {"den", "pres", "stress", "sie", "sspd", "mass"}
    IN [format |-> IF front THEN "viz" ELSE R({"viz", "viz", "viz_and_state"} \cup IF Len(solvers) = 1 THEN {"state", "ensight"} ELSE {}),
        elem |-> TLCEval(Some(mat)), mat |-> TLCEval(Some(mat \cup {"volfrac"} \cup IF front THEN {} ELSE {"eroded"})),
        node |-> TLCEval(Some({"coords", "vel"} \cup IF front THEN {"grad_level_set"} ELSE {"mass", "force"} \cup IF heat THEN {"temp"} ELSE {})),
        gauss |-> TLCEval(Some({"volume"} \cup IF front THEN {"level_set"} ELSE IF heat THEN {} ELSE {"vel_grad"}))]

(* A gas, an elastic solid or void, with or without strength and erosion; the  *)
(* moduli and the reference density are in quarters, the yield stress and the  *)
(* least pressure in 16ths.                                                    *)
Matter == [gam |-> R(5 .. 8), q |-> Coin(2), eos |-> R({"gamma", "gamma", "elastic", "elastic", "elastic", "void"}), bulk |-> R(1 .. 8), modulus |-> R(0 .. 4), den0 |-> R(4 .. 16), least |-> R({0, 0, 1}),
           str |-> R({"none", "plastic", "plastic"}), shear |-> R(1 .. 16), yield |-> R({1, 2, 4, 8, 16, 32}),
           ero |-> R({"none", "none", "basic", "basic", "basic"}), tension |-> R(-24 .. 8), thin |-> R(0 .. 14)]

Deck(m, solvers, tf, t0) ==
    LET methods == [i \in DOMAIN solvers |-> solvers[i].method]
        mats == R(1 .. 2)
        nb == R(0 .. 4)
        nr == R(0 .. 2)
        dtmax == IF Short /\ solvers[1].method = "thrmex_FE" THEN 1000 * R(40 .. 300) ELSE tf \div R({2, 3, 5, 10, 30})
        few == R(1 .. 6)
        ival == R({tf \div 2, tf \div 3, tf \div 7, tf, tf \div 20, 1000000 * R(3 .. 1000)})
    IN [solvers |-> solvers, mesh |-> m, mats |-> [k \in 1 .. mats |-> IF Mats THEN Matter ELSE [front |-> k = 1 \/ ~Fronts \/ ~Coin(3), speed |-> IF methods[1] # "level_set" THEN 4 ELSE R({-20, -11, -6, -2, 0, 1, 4, 4, 8, 13}), gam |-> R(5 .. 8), q |-> Coin(2), eos |-> "gamma", str |-> "none", ero |-> "none"]], max |-> 4, parts |-> FALSE, rk |-> R(1 .. 2), t0 |-> t0, tf |-> tf,
        dtmax |-> dtmax, dtmin |-> IF Short THEN 100 ELSE R({1000, 1000, dtmax \div 20, dtmax \div 8}), dtstart |-> IF Short THEN dtmax \div 2 ELSE dtmax \div R({1, 2, 5, 15}), cfl |-> R({10, 20, 30, 50, 90}),
        stop |-> IF Short THEN few ELSE R({few, R(7 .. 40), 1000, 1000, 1000}), ival |-> IF Short THEN 2000000000 ELSE ival, iter |-> IF Out THEN R(1 .. 3) ELSE IF Short THEN 1000000 ELSE R({1, 2, 3, 7, 1000000, 1000000}),
        bcs |-> [k \in 1 .. nb |-> Boundary_(m, solvers, tf)] \o IF m.dims = 2 /\ m.org[2] = 0 THEN [i \in DOMAIN solvers |-> Axis_(i - 1)] ELSE <<>>,
        regions |-> FoldLeft(LAMBDA a, i : a \o [k \in 1 .. nr + 1 |-> RunFill(m, mats, k = 1, solvers[i].method, i)], <<>>, [i \in DOMAIN solvers |-> i])]

Meeting(axis, two, lean) ==
    LET d == Deck(Pair(two, lean), <<[method |-> "dynx_FE", tend |-> 0]>>, 1000000000, 0)
        dt == R({40000000, 100000000})
    IN [d EXCEPT !.bcs = <<>>, !.rk = R({1, 1, 1, 2}), !.stop = R(1 .. 3), !.dtmax = dt, !.cfl = R({10, 20, 30}), !.dtstart = dt \div 2, !.regions = <<d.regions[1], BodyFill(two, Len(d.mats), axis, 1), BodyFill(two, Len(d.mats), axis, 2)>>]
       @@ [axis |-> IF lean.over = 0 THEN axis ELSE 0, contact |-> [local |-> R({0, 500, 1000}), global |-> R({100, 200})]]

(* Two boxes of elements that fit, one right after the other along an axis.     *)
Fitting(axis) ==
    LET h == [d \in 1 .. 3 |-> R({512, 1024})]
        n == [d \in 1 .. 3 |-> R({1, 1, 2})]
        m == [d \in 1 .. 3 |-> R({1, 2})]
        org == [d \in 1 .. 3 |-> 512 * R(-1 .. 1)]
    IN <<[n |-> n, h |-> h, org |-> org],
         [n |-> m, h |-> [h EXCEPT ![axis] = R({512, 1024})], org |-> [d \in 1 .. 3 |-> org[d] + (IF d = axis THEN n[d] * h[d] ELSE h[d] * R({0, 0, 0, n[d] - 1, n[d], -m[d]}))]]>>
Bonding(axis, two, lean) ==
    LET d == Deck(Pair(two, lean), <<[method |-> "dynx_FE", tend |-> 0]>>, 1000000000, 0)
        dt == R({20000000, 50000000, 100000000})
        away(r, i) == [r EXCEPT !.vel = [k \in 1 .. 3 |-> IF k # axis THEN R({0, 0, 1, -2, 4, -8}) ELSE IF i = 1 THEN R({0, 0, -1, -3, -8, 2}) ELSE R({0, 0, 2, 4, 6, -1})]]
    IN [d EXCEPT !.bcs = <<>>, !.rk = R({1, 1, 1, 1, 2}), !.stop = R(2 .. 6), !.dtmax = dt, !.cfl = R({20, 30}), !.dtstart = dt \div 2, !.regions = <<d.regions[1], away(BodyFill(two, Len(d.mats), axis, 1), 1), away(BodyFill(two, Len(d.mats), axis, 2), 2)>>]
       @@ [axis |-> 0, bond |-> [E |-> R(1 .. 12), a1 |-> R({0, 2, 16, 64, 200}), n |-> R({1, 2, 4, 4, 8}), un |-> R({4, 8, 16, 32}), ut |-> R({4, 8, 16, 32}), parts |-> [i \in 1 .. R(0 .. 2) |-> [E |-> R(1 .. 8), tau |-> R({2, 8, 32, 128})]]]]

Show(d) == deck' = 3 - deck /\ PrintT("CASE " \o ToJson(d))
Init == deck = 1
Usual == \E tf \in {1000 * R({100000 * R(1 .. 15), 1000 * R(100 .. 1500)})} :
        \E methods \in {IF Fronts THEN <<"level_set">> ELSE IF Mats THEN R({<<"dynx_FE">>, <<"dynx_FE">>, <<"dynx_FE_rz">>})
                        ELSE IF Out THEN R({<<"dynx_FE">>, <<"dynx_FE_rz">>, <<"thrmex_FE">>, <<"level_set">>, <<"dynx_FE", "dynx_FE">>, <<"thrmex_FE", "dynx_FE">>})
                        ELSE IF Short THEN R({<<"dynx_FE">>, <<"dynx_FE">>, <<"dynx_FE_rz">>, <<"thrmex_FE">>, <<"dynx_FE", "dynx_FE">>, <<"dynx_FE_rz", "dynx_FE_rz">>, <<"thrmex_FE", "thrmex_FE">>})
                        ELSE R({<<"dynx_FE">>, <<"dynx_FE_rz">>, <<"thrmex_FE">>, <<"level_set">>, <<"dynx_FE", "dynx_FE">>, <<"dynx_FE_rz", "dynx_FE_rz">>, <<"thrmex_FE", "dynx_FE">>})} :
        \E dims \in {IF methods[1] = "dynx_FE_rz" THEN 2 ELSE IF methods[1] = "level_set" THEN R(2 .. 3) ELSE 3} :
        \E b \in {TLCEval(RunMesh(dims))} :
        \E move \in {TLCEval(IF dims = 3 /\ Coin(2) THEN Moves(b) ELSE <<>>)} :
        \E m \in {TLCEval(IF move # <<>> THEN Moved(b, move) ELSE b)} :
        \E t0 \in {IF Short THEN 0 ELSE R({0, 0, tf \div 3})} :
        \E ends \in {TLCEval([i \in DOMAIN methods |-> IF i = Len(methods) /\ Coin(2) THEN 0 ELSE R({0, tf \div 2, 1000 * (tf \div 3000), 1000000 * R(1 .. 1600)})])} :
        \E solvers \in {TLCEval([i \in DOMAIN methods |-> [method |-> methods[i], tend |-> ends[i]]])} :
        \E outs \in {TLCEval(IF Out THEN Outs(solvers) ELSE <<>>)} :
        \E d \in {TLCEval([outs |-> outs] @@ Deck(m, solvers, tf, t0))} : Show(d)
Next == IF Bodies THEN \E axis \in {R(1 .. 3)} : \E two \in {TLCEval(TwoBoxes(axis))} : \E lean \in {TLCEval(Leaning(axis))} : \E d \in {TLCEval([outs |-> <<>>] @@ Meeting(axis, two, lean))} : Show(d)
        ELSE IF Bonds THEN \E axis \in {R(1 .. 3)} : \E two \in {TLCEval(Fitting(axis))} : \E lean \in {TLCEval(Leaning(axis))} : \E d \in {TLCEval([outs |-> <<>>] @@ Bonding(axis, two, lean))} : Show(d) ELSE Usual
Spec == Init /\ [][Next]_deck
===============================================================================
