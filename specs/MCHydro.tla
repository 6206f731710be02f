-------------------------------- MODULE MCHydro --------------------------------
(* A chain of nodes with an element between neighbours, pulled by any forces   *)
(* that cancel within each element, held (or not) at its first node.           *)
EXTENDS Hydro
CONSTANTS Nodes, Forces, Speeds, Steps
VARIABLES x, v, e, mass, held, n, mom0, tot0
vars == <<x, v, e, mass, held, n, mom0, tot0>>
N == 1 .. Nodes
Els == 1 .. Nodes - 1
Half == One \div 2
SomeForces == {<<0, 0>>, <<Half, -One>>, <<-One \div 4, One>>}
SomeSpeeds == {<<0, 0>>, <<One, One>>, <<-One, Half>>}
MoreForces == SomeForces \cup {<<-One, 0>>, <<One \div 8, One \div 8>>}
Cond(model, dir, k) == [model |-> model, dir |-> dir, k |-> k, v |-> <<Half, One, 0>>, from |-> 0, to |-> 2000000000]
Conds == {<<>>, <<Cond("fixed", <<1, 0>>, 1)>>, <<Cond("reflected", <<3, 4>>, 5)>>, <<Cond("reflected", <<0, -2>>, 2), Cond("reflected", <<1, 0>>, 1)>>}
Momentum(vv, m) == VSum([i \in N |-> VMul(vv[i], m[i])], 2)
Total(vv, m, ee) == Sum([i \in N |-> Kinetic(vv[i], m[i])]) + Sum([i \in Els |-> ee[i]])
Init == /\ mass \in [N -> {One, 3 * Half}]
        /\ held \in Conds
        /\ v \in {[i \in N |-> IF i = 1 THEN HeldAll(w[i], held, 0) ELSE w[i]] : w \in [N -> Speeds]}
        /\ x = [i \in N |-> <<i * One, 0>>] /\ e = [i \in Els |-> One] /\ n = 0
        /\ mom0 = Momentum(v, mass) /\ tot0 = Total(v, mass, e)
Step == /\ n < Steps /\ n' = n + 1 /\ UNCHANGED <<mass, held, mom0, tot0>>
        /\ \E f \in [Els -> Forces] :
             LET F(i, j) == IF i = j THEN f[i] ELSE VSub(<<0, 0>>, f[i])          \* on node j from element i: its first and second node
                 G(j) == IF j = 1 THEN f[1] ELSE IF j = Nodes THEN F(Nodes - 1, Nodes) ELSE VAdd(F(j - 1, j), F(j, j))
                 w == [j \in N |-> LET free == Pushed(v[j], G(j), mass[j], Half) IN IF j = 1 THEN HeldAll(free, held, n * 500000000) ELSE free]
             IN /\ v' = w
                /\ x' = [j \in N |-> Carried(x[j], v[j], w[j], Half)]
                /\ e' = [i \in Els |-> e[i] - Work(F(i, i), v[i], w[i], Half) - Work(F(i, i + 1), v[i + 1], w[i + 1], Half)]
Next == Step
Spec == Init /\ [][Next]_vars

Tiny == 8 + 16 * n
Keeps == held = <<>> => \A d \in 1 .. 2 : Size(Momentum(v, mass)[d] - mom0[d]) <= Tiny
Energy == Size(Total(v, mass, e) - tot0) <= Tiny
Stays == \A i \in DOMAIN held : (IF held[i].model = "fixed" THEN v[1] = <<0, 0>> ELSE Size(Along(v[1], held[i])) <= 16)
Numbers == n = 0 => /\ Mul(3 * Half, -One) = -3 * Half /\ Div(One, 3 * One) = One \div 3 /\ Div(-One, 2 * One) = -Half
                    /\ Size(Exp(One) - 2850325) <= 8 /\ Size(Exp(-One) - 385750) <= 8 /\ Fixed(1500000000) = 3 * Half
                    /\ LET p == << <<0, 0, 0>>, <<One, 0, 0>>, <<0, One, 0>>, <<One, One, 0>>, <<0, 0, One>>, <<One, 0, One>>, <<0, One, One>>, <<3 * Half, 3 * Half, 3 * Half>> >>
                           a == CornerAreas(p)
                       IN /\ \A d \in 1 .. 3 : Size(VSum(a, 3)[d]) <= 16
                          /\ Size(HexVolume(p, a) - (11 * One) \div 8) <= 64
                          (* moving a node by d changes the volume by about its area times d *)
                          /\ LET q == [p EXCEPT ![8] = <<3 * Half + 1024, 3 * Half, 3 * Half>>] IN Size(HexVolume(q, CornerAreas(q)) - HexVolume(p, a) - (a[8][1] \div 1024)) <= 16
===============================================================================
