-------------------------------- MODULE MCFront --------------------------------
(* Level sets on a sheet of squares whose sides hold the front back.           *)
EXTENDS Front
CONSTANTS Wide, High, Values, Speeds, Steps
VARIABLES phi, phi0, speed, n
vars == <<phi, phi0, speed, n>>
Dt == One \div 8
Els == 1 .. Wide * High
Col(k) == (k - 1) % Wide
Row(k) == (k - 1) \div Wide
Node(i, j) == 1 + i + j * (Wide + 1)
Nodes == 1 .. (Wide + 1) * (High + 1)
Elems == [k \in Els |-> LET i == Col(k)
                            j == Row(k)
                        IN <<Node(i, j), Node(i + 1, j), Node(i + 1, j + 1), Node(i, j + 1)>>]
X(n_) == (n_ - 1) % (Wide + 1)
Y(n_) == (n_ - 1) \div (Wide + 1)
Wall(d) == [model |-> "reflected", dir |-> d, k |-> 1, v |-> <<0, 0, 0>>, from |-> 0, to |-> 2000000000]
Walls == TLCEval([n_ \in Nodes |-> (IF X(n_) \in {0, Wide} THEN <<Wall(<<1, 0>>)>> ELSE <<>>) \o (IF Y(n_) \in {0, High} THEN <<Wall(<<0, 1>>)>> ELSE <<>>)])
Sheet(ox, oy) ==
    LET p(k) == [c \in 1 .. 4 |-> <<(X(Elems[k][c]) + ox) * One, (Y(Elems[k][c]) + oy) * One>>]
        a == [k \in Els |-> QuadNormals(p(k))]
        vol == [k \in Els |-> Triangle(p(k)[1], p(k)[2], p(k)[3]) + Triangle(p(k)[1], p(k)[3], p(k)[4])]
    IN [elems |-> Elems, a |-> a, vol |-> vol, len |-> [k \in Els |-> Smoothing(2, vol[k])],
        at |-> [n_ \in Nodes |-> SetToSeq({<<k, c>> \in Els \X (1 .. 4) : Elems[k][c] = n_})], held |-> Walls]
M == TLCEval(Sheet(0, 0))
Far == TLCEval(Sheet(3, -2))
StepOf(m, p, f) ==
    LET g == TLCEval([n_ \in Nodes |-> Slope(m, p, n_, 2)])
        v == TLCEval([n_ \in Nodes |-> Heading(m, g[n_], n_)])
    IN TLCEval([k \in Els |-> LET s == TLCEval(Signum(p[k], m.len[k])) IN Evolved(p[k], p[k], TLCEval(Upwind(m, g, v, k, f + s)), f, m.len[k], Dt)])
Neg(p) == [k \in Els |-> -p[k]]
Mirror(k) == (Wide - 1 - Col(k)) + Row(k) * Wide + 1
Near(a, b, tol) == Size(a - b) <= tol
Init == /\ phi0 \in Values /\ phi = phi0 /\ speed \in Speeds /\ n = 0
Next == n < Steps /\ n' = n + 1 /\ phi' = StepOf(M, phi, speed) /\ UNCHANGED <<phi0, speed>>
Spec == Init /\ [][Next]_vars

Half == One \div 2
Planes == {[k \in Els |-> s * ((2 * Col(k) + c) * Half)] : c \in {-3, -2, 1}, s \in {-1, 1}} \cup {[k \in Els |-> s * ((2 * Row(k) + c) * Half)] : c \in {-1, 0}, s \in {-1, 1}}
Few == Planes \cup [Els -> {0, -Half}] \cup {[k \in Els |-> Half]}
More == Planes \cup [Els -> {-Half, 0, One}]
SomeSpeeds == {Half, -2 * One}
MoreSpeeds == {Half, -2 * One, 0, One, -Half}

(* A plane moves at the speed of the front (seen where the wall it comes from  *)
(* cannot have been felt yet).                                                 *)
Across == IF \A k, j \in Els : Row(k) = Row(j) => phi0[k] = phi0[j] THEN 0 ELSE IF phi0[2] > phi0[1] THEN 1 ELSE -1
(* The front moves along the gradient for a positive speed, and the field is   *)
(* driven outward from its zero.                                               *)
Felt_(k) == IF Across = 1 THEN (IF speed > 0 THEN Col(k) ELSE Wide - 1 - Col(k)) ELSE (IF speed > 0 THEN Wide - 1 - Col(k) ELSE Col(k))
Plane == phi0 \in Planes /\ Across # 0 => \A k \in Els : Felt_(k) >= n /\ Size(speed) > One => Near(phi[k], phi0[k] - n * Mul(Dt, speed), 64 * n)
(* Turning field and speed around, or the sheet, or moving it, changes nothing *)
(* else.                                                                       *)
Odd == \A k \in Els : Near(StepOf(M, Neg(phi), -speed)[k], -StepOf(M, phi, speed)[k], 512)
Mirrored == \A k \in Els : Near(StepOf(M, [j \in Els |-> phi[Mirror(j)]], speed)[Mirror(k)], StepOf(M, phi, speed)[k], 512)
Anywhere == n = 0 => StepOf(Far, phi, speed) = StepOf(M, phi, speed)
(* A field without slope is only driven away from zero.                        *)
Flat == n = 1 /\ (\A k, j \in Els : phi0[k] = phi0[j]) => \A k \in Els : phi[k] = phi[1] /\ (IF phi0[1] > 0 THEN phi[k] > phi0[k] ELSE IF phi0[1] < 0 THEN phi[k] < phi0[k] ELSE phi[k] = 0)
Roots == n = 0 => /\ Size(Cbrt(One) - One) <= 4 /\ Size(Cbrt(One \div 8) - Half) <= 16 /\ Size(Norm2(<<3 * One, -4 * One>>) - 5 * One) <= 16
===============================================================================
