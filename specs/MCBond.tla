--------------------------------- MODULE MCBond ---------------------------------
(* One bond, opened and closed in every way by a few speeds.                    *)
EXTENDS Bond
CONSTANTS Laws, Speeds, Steps
VARIABLES law, un, ut, z, old, n, eased
vars == <<law, un, ut, z, old, n, eased>>
Dt == One \div 8
Init == law \in Laws /\ un = 0 /\ ut = 0 /\ z = New(law) /\ old = [un |-> 0, ut |-> 0, z |-> New(law)] /\ n = 0 /\ eased = FALSE
Next == /\ n < Steps /\ n' = n + 1 /\ law' = law
        /\ \E v \in Speeds :
              /\ un' = un + Mul(v[1], Dt) /\ ut' = Size(ut + Mul(v[2], Dt))
              /\ z' = TLCEval(Bonded(law, z, [un |-> un, ut |-> ut, un2 |-> un', ut2 |-> ut'], Dt))
              /\ old' = [un |-> un, ut |-> ut, z |-> z]
              /\ eased' = (eased \/ Apartness(un', ut', law) < Apartness(un, ut, law) \/ Mul(un', ut) # Mul(un, ut'))
Spec == Init /\ [][Next]_vars

Tol == 64 * (n + 1)
Plain == law.parts = <<>>
Wear == z.hurt >= old.z.hurt /\ z.hurt <= One
(* Without parts that slacken, the pull is that of a spring as far as it is not *)
(* worn out, so a broken bond does not pull at all.                             *)
Spring == Plain => /\ Size(z.tn - Mul(Mul(law.E, Divided(un, law.un)), One - z.hurt)) <= Tol
                   /\ Size(z.tt - Mul(Mul(law.E, Div(ut, law.ut)), One - z.hurt)) <= Tol
(* A bond that is kept open slackens, and does not wear.                        *)
Slackens == n > 0 /\ un = old.un /\ ut = old.ut => /\ z.hurt = old.z.hurt
                                                   /\ ~eased /\ un >= 0 => z.tn <= old.z.tn + Tol /\ z.tt <= old.z.tt + Tol
Shut == z.hurt = 0 /\ un = 0 /\ ut = 0 /\ ~eased => z.tn = 0 /\ z.tt = 0
(* Opened straight, it pulls against what opens it.                             *)
Against__ == ~eased /\ un >= 0 => z.tn >= -Tol /\ z.tt >= -Tol
(* A bond that slackens pulls at most like a spring of all its stiffness.       *)
AtMost == ~eased /\ un >= 0 => LET E == law.E + Sum([j \in DOMAIN law.parts |-> 2 * law.parts[j].E]) IN z.tn <= Mul(E, Divided(un, law.un)) + Tol /\ z.tt <= Mul(E, Div(ut, law.ut)) + Tol

Q == One \div 4
Law(E, a1, k, u, t, parts) == [E |-> E * Q, a1 |-> a1 * Q, n |-> k, un |-> (u * One) \div 64, ut |-> (t * One) \div 64, parts |-> parts]
P(E, tau) == [E |-> E * Q, tau |-> (tau * One) \div 64]
SomeLaws == {Law(4, 0, 4, 16, 16, <<>>), Law(8, 4, 2, 16, 32, <<>>), Law(2, 16, 1, 32, 16, <<>>), Law(4, 0, 4, 16, 32, <<P(4, 16)>>), Law(1, 4, 8, 32, 16, <<P(8, 4), P(2, 64)>>)}
MoreLaws == SomeLaws \cup {Law(E, a, k, u, 16, s) : E \in {1, 8}, a \in {2, 16}, k \in {1, 4}, u \in {16, 64}, s \in {<<>>, <<P(4, 2), P(4, 128)>>}}
SomeSpeeds == {<<0, 0>>, <<Q, 0>>, <<0, Q>>, <<One, Q>>, <<-Q, 0>>, <<-One, -Q>>}
===============================================================================
