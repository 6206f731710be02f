------------------------------- MODULE MCMatter -------------------------------
(* A point of an elastic and plastic solid, deformed at any of some rates.     *)
EXTENDS Hydro
CONSTANTS Rates, Steps, Shear, Yield
VARIABLES s, was, rate, den, gone, n
vars == <<s, was, rate, den, gone, n>>
Half == One \div 2
Dt == One \div 4
Zero == [c \in 1 .. 9 |-> 0]
At(c, x) == [Zero EXCEPT ![c] = x]
SomeRates == {Zero, At(2, Half), [At(2, One) EXCEPT ![4] = -One], [At(1, Half) EXCEPT ![5] = -Half], [c \in {1, 5, 9} |-> -Half] @@ Zero}
MoreRates == SomeRates \cup {[At(1, -Half) EXCEPT ![6] = One], [At(3, One) EXCEPT ![7] = -One], At(9, One), [c \in 1 .. 9 |-> (((c * 7) % 5) - 2) * (One \div 4)]}
M == [eos |-> "elastic", bulk |-> 8, modulus |-> 2, den0 |-> 4, least |-> 2]
Tension == -Half
Pr(d) == EosPressure(M, d, One)
Init == /\ s = Zero /\ was = Zero /\ rate = Zero /\ den = One /\ gone = FALSE /\ n = 0
Deform == /\ n < Steps /\ n' = n + 1 /\ ~gone /\ den < 4 * One
          /\ \E r \in Rates :
               /\ rate' = r /\ was' = s
               /\ s' = Yielding(TLCEval(Trial(s, r, Shear, Dt)), Yield)
               /\ den' = Div(den, One + Mul(Trace_(r), Dt))
          /\ gone' = FALSE
Erode == /\ ~gone /\ Pr(den) <= Tension
         /\ gone' = TRUE /\ s' = Zero /\ was' = Zero /\ den' = 0 /\ UNCHANGED <<rate, n>>
Next == Deform \/ Erode
Spec == Init /\ [][Next]_vars

Symmetric == \A i, j \in 1 .. 3 : Size(Ij(s, i, j) - Ij(s, j, i)) <= n
NoPressure == Size(Trace_(s)) <= 8 * n
Norm(a) == IF Largest(a) < 64 THEN 0 ELSE Mul(Largest(a), Mises(TLCEval(Unit(a))))
Within == Norm(s) <= Yield + 64
(* Turning alone changes the size of the stress only by the step's square      *)
(* (twice as fast, and never to less), plain changes of volume not at all.     *)
Turning == (\A i, j \in 1 .. 3 : Ij(rate, i, j) = -Ij(rate, j, i)) => (Norm(s) >= Norm(was) - 64 \/ Norm(s) >= Yield - 64) /\ Norm(s) <= Norm(was) + Norm(was) \div 4 + 64
Swelling == (rate = [c \in {1, 5, 9} |-> -Half] @@ Zero) /\ ~gone => \A c \in 1 .. 9 : Size(s[c] - was[c]) <= 32
(* The first step of a shear: the modulus times twice the rate.                *)
Shearing == n = 1 /\ rate = At(2, Half) => s = [At(2, (Shear * One) \div 32) EXCEPT ![4] = (Shear * One) \div 32]
Once == gone => s = Zero /\ den = 0

(* What the corners of an element feel of a stress does the work of the stress *)
(* on the volume, and moves nothing as a whole.                                *)
Box == << <<0, 0, 0>>, <<One, 0, 0>>, <<Half \div 2, One, 0>>, <<One, One, 0>>, <<0, 0, One>>, <<One, Half \div 4, One>>, <<0, One, One>>, <<3 * Half, One, One + Half>> >>
Quad == << <<0, One>>, <<2 * One, One + Half>>, <<One + Half, 3 * One>>, <<Half \div 4, 2 * One>> >>
Vel(d) == [c \in 1 .. IF d = 3 THEN 8 ELSE 4 |-> [k \in 1 .. d |-> (((c * (k + 2) * 5) % 7) - 3) * (One \div 8)]]
WorkErr(a, v, d) ==
    LET f == TLCEval([c \in DOMAIN a |-> Felt(a[c], s, Pr(den))])
        t(i, j) == Ij(s, i, j) - (IF i = j THEN Pr(den) ELSE 0)
        force == VSum(f, d)
        power == Sum([c \in DOMAIN a |-> Dot(f[c], v[c])])
        want == -Sum([i \in 1 .. d |-> Sum([j \in 1 .. d |-> Mul(t(i, j), Sum([c \in DOMAIN a |-> Mul(v[c][j], a[c][i])]))])])
    IN (\A k \in 1 .. d : Size(force[k]) <= 256) /\ Size(power - want) <= 1024
Works == WorkErr(TLCEval(CornerAreas(Box)), Vel(3), 3) /\ WorkErr(TLCEval(QuadNormals(Quad)), Vel(2), 2)
Shares == n = 0 => /\ Size(Sum(QuadShares(Quad)) - Triangle(Quad[1], Quad[2], Quad[3]) - Triangle(Quad[1], Quad[3], Quad[4])) <= 16
                   /\ \A d \in 1 .. 2 : VSum(QuadNormals(Quad), 2)[d] = 0
===============================================================================
