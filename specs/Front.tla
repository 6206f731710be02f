--------------------------------- MODULE Front ---------------------------------
(* One step of the level set solver.  A mesh m: its elements (elems), the      *)
(* outward area of every corner (a), the volume of every element (vol; in 2D   *)
(* its area), the length over which its sign is smoothed (len), and at every   *)
(* node the corners around it (at) and the conditions on its velocity (held).  *)
EXTENDS Hydro
Cbrt(a) == FoldLeft(LAMBDA x, i : IF Mul(Mul(x + 2 ^ (22 - i), x + 2 ^ (22 - i)), x + 2 ^ (22 - i)) <= a THEN x + 2 ^ (22 - i) ELSE x, 0, [i \in 1 .. 22 |-> i])
Smoothing(d, vol) == 2 * (IF d = 3 THEN Cbrt(vol) ELSE Sqrt(vol))
Norm2(v) == LET big == TLCEval(Largest(v))
                u == TLCEval([d \in DOMAIN v |-> Div(v[d], big)])
            IN IF big = 0 THEN 0 ELSE Mul(big, Sqrt(Dot(u, u)))
(* Its direction, if it is more than rounding.                                 *)
Unit_(v) == LET n == TLCEval(Norm2(v)) IN IF n < 128 THEN [d \in DOMAIN v |-> 0] ELSE [d \in DOMAIN v |-> Div(v[d], n)]
(* The gradient at a node: the mean over the volume around it.                 *)
Slope(m, phi, n, d) ==
    LET s == m.at[n]
        vol == Sum([i \in DOMAIN s |-> m.vol[s[i][1]] \div Len(m.elems[1])])
        g == VSum([i \in DOMAIN s |-> VMul(m.a[s[i][1]][s[i][2]], -phi[s[i][1]])], d)
    IN [k \in 1 .. d |-> Div(g[k], vol)]
(* The front moves along its gradient, as far as the conditions allow.         *)
Heading(m, g, n) == FoldLeft(LAMBDA v, b : Unit_(Held(v, b, TRUE, 0)), Unit_(g), m.held[n])
(* What a step dt makes of the level set of element k whose front moves at     *)
(* speed (given the level set now and at the beginning of the step): its       *)
(* gradient counts from upwind (if more than rounding points there), and the   *)
(* field is driven towards a distance.                                         *)
Signum(p, len) == Div(p, TLCEval(Sqrt(Mul(p, p) + Mul(len, len))))
Evolved(p0, p, h, speed, len, dt) == LET s == TLCEval(Signum(p, len)) IN p0 - Mul(dt, Mul(speed, h) + Mul(s, h - One))
Weights(m, vel, k, f) == [c \in DOMAIN m.elems[k] |-> LET w == -Dot(vel[m.elems[k][c]], m.a[k][c]) IN IF Mul(f, w) > 0 THEN Mul(f, w) ELSE 0]
Upwind(m, grad, vel, k, f) ==
    LET w == TLCEval(Weights(m, vel, k, f))
        all == TLCEval(Sum(w))
    IN IF all < One \div 1024 THEN 0 ELSE Sum([c \in DOMAIN w |-> Mul(Div(w[c], all), Dot(vel[m.elems[k][c]], grad[m.elems[k][c]]))])
===============================================================================
