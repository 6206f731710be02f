------------------------------- MODULE MCContact --------------------------------
(* Two squares, one above the other and shifted: the four nodes of each lie    *)
(* over or under the face of the other, or beside it.  Forces between them are *)
(* found pair by pair, over and over again.                                    *)
EXTENDS Contact, FiniteSetsExt
CONSTANTS Offsets, Speeds, Heights, Masses, Sweeps, Part
VARIABLES off, vel, mass, high, at, weight, force, n
vars == <<off, vel, mass, high, at, weight, force, n>>
Dt == One \div 2
Quarter == One \div 4
Lower == <<<<0, 0, 0>>, <<4, 0, 0>>, <<4, 4, 0>>, <<0, 4, 0>>>>
Place0(k) == IF k <= 4 THEN [d \in 1 .. 3 |-> Quarter * Lower[k][d]]
             ELSE [d \in 1 .. 3 |-> Quarter * (Lower[k - 4][d] + (IF d = 3 THEN 0 ELSE off[d])) + (IF d = 3 THEN high ELSE 0)]
Face(k) == IF k <= 4 THEN <<5, 8, 7, 6>> ELSE <<1, 2, 3, 4>>            \* the other body's, outward
(* Where node k lies over the face of the other body, without moving sideways. *)
Local(k) ==
    LET d == IF k <= 4 THEN -1 ELSE 1
        a == Lower[((k - 1) % 4) + 1]
    IN <<a[1] + d * off[1], a[2] + d * off[2]>>
Pairs == {k \in 1 .. 8 : \A d \in 1 .. 2 : Local(k)[d] \in 0 .. 4}
Weight(x) == [k \in Pairs |-> LET z == Against(x[k], [i \in 1 .. 4 |-> x[Face(k)[i]]]) IN Shares(z[1], z[2])]
Push(fs) ==                                                          \* on every node, upward
    [k \in 1 .. 8 |-> LET own == IF k \in Pairs THEN (IF k <= 4 THEN -fs[k] ELSE fs[k]) ELSE 0
                          others == SetToSeq({<<p, i>> \in Pairs \X (1 .. 4) : Face(p)[i] = k})
                      IN own + Sum([j \in DOMAIN others |-> LET p == others[j][1] IN Mul(weight[p][others[j][2]], IF p <= 4 THEN fs[p] ELSE -fs[p])])]
End(fs) == LET f == TLCEval(Push(fs)) IN TLCEval([k \in 1 .. 8 |-> Carried(at[k], <<0, 0, vel[k]>>, Pushed(<<0, 0, vel[k]>>, <<0, 0, f[k]>>, mass[k], Dt), Dt)])
Apart(x, k) == Against(x[k], [i \in 1 .. 4 |-> x[Face(k)[i]]])[3]
One_(fs, k) == [fs EXCEPT ![k] = Pressed(fs[k], Apart(End(fs), k), Give(mass[k], [i \in 1 .. 4 |-> mass[Face(k)[i]]], weight[k], Dt), Part)]
Order == SetToSeq(Pairs)

Init == /\ off \in Offsets /\ vel \in Speeds /\ mass \in Masses /\ high \in Heights
        /\ at = [k \in 1 .. 8 |-> Place0(k)] /\ weight = Weight(at) /\ force = [k \in Pairs |-> 0] /\ n = 0
Next == n < Sweeps /\ n' = n + 1 /\ force' = TLCEval(FoldLeft(LAMBDA fs, k : TLCEval(One_(fs, k)), force, Order)) /\ UNCHANGED <<off, vel, mass, high, at, weight>>
Spec == Init /\ [][Next]_vars

F3 == LET f == TLCEval(Push(force)) IN [k \in 1 .. 8 |-> <<0, 0, f[k]>>]
Most == 64 + (Sum([k \in 1 .. 8 |-> Size(F3[k][3])]) \div 4096)
Balance == NoNet(F3, Most)
Turning == NoTurn(at, F3, 4 * Most)
NoPull == \A k \in Pairs : force[k] >= 0
(* The lower body is only pushed down.                                         *)
Against_ == Sum([k \in 1 .. 4 |-> F3[k][3]]) <= Most
(* In the end, nothing overlaps, and only what touches pushes.                 *)
Tol == One \div 512
Settled == n = Sweeps => LET x == End(force) IN \A k \in Pairs : LET a == Apart(x, k) IN a >= -Tol /\ (force[k] > One \div 16 => a <= Tol)
(* Nothing pushes where nothing would meet.                                    *)
Apart_ == (LET x == End([k \in Pairs |-> 0]) IN \A k \in Pairs : Apart(x, k) >= 0) => \A k \in Pairs : force[k] = 0

SomeOffsets == {<<0, 0>>, <<1, 0>>, <<2, 1>>, <<-1, 3>>, <<4, 0>>}
MoreOffsets == {<<a, b>> : a \in {-3, -1, 0, 2, 4}, b \in {-4, -2, 0, 1, 3}}
Flat(v) == [k \in 1 .. 8 |-> IF k <= 4 THEN 0 ELSE v]
SomeSpeeds == {Flat(-One), Flat(Quarter), [Flat(-One) EXCEPT ![5] = 0], [Flat(0) EXCEPT ![7] = -2 * One, ![1] = Quarter]}
MoreSpeeds == SomeSpeeds \cup {Flat(0), Flat(-2 * One), [Flat(-Quarter) EXCEPT ![2] = One], [Flat(-One) EXCEPT ![6] = One, ![8] = One], [Flat(One) EXCEPT ![1] = 2 * One, ![3] = 2 * One]}
SomeHeights == {0, One \div 8}
MoreHeights == {0, One \div 8, One \div 2, -One \div 64}
SomeMasses == {[k \in 1 .. 8 |-> One], [k \in 1 .. 8 |-> IF k <= 4 THEN 2 * One ELSE One \div 2]}
MoreMasses == SomeMasses \cup {[k \in 1 .. 8 |-> IF k % 2 = 0 THEN One ELSE 3 * One]}
===============================================================================
