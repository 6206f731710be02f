--------------------------------- MODULE Fixed ---------------------------------
(* Numbers with 20 binary places, of magnitude below 64.                       *)
EXTENDS Integers, Sequences, SequencesExt
One == 1048576
Size(a) == IF a < 0 THEN -a ELSE a
Mul(a, b) == (a \div 1024) * (b \div 1024) + (((a \div 1024) * (b % 1024) + (a % 1024) * (b \div 1024)) \div 1024)
(* The quotient of a and b > 0, four bits at a time.                           *)
Div(a, b) == FoldLeft(LAMBDA x, i : <<x[1] * 16 + ((x[2] * 16) \div b), (x[2] * 16) % b>>, <<a \div b, a % b>>, <<1, 2, 3, 4, 5>>)[1]
(* The square root of a >= 0, below 8.                                         *)
Sqrt(a) == FoldLeft(LAMBDA x, i : IF Mul(x + 2 ^ (23 - i), x + 2 ^ (23 - i)) <= a THEN x + 2 ^ (23 - i) ELSE x, 0, [i \in 1 .. 23 |-> i])
(* e to the power of a, for -2 <= a <= 2.                                      *)
Exp(a) == FoldLeft(LAMBDA x, i : <<x[1] + (Mul(x[2], a) \div i), Mul(x[2], a) \div i>>, <<One, One>>, [i \in 1 .. 14 |-> i])[1]
Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)

VAdd(a, b) == [d \in DOMAIN a |-> a[d] + b[d]]
VSub(a, b) == [d \in DOMAIN a |-> a[d] - b[d]]
VMul(a, k) == [d \in DOMAIN a |-> Mul(a[d], k)]
Dot(a, b) == Sum([d \in DOMAIN a |-> Mul(a[d], b[d])])
Cross(a, b) == <<Mul(a[2], b[3]) - Mul(a[3], b[2]), Mul(a[3], b[1]) - Mul(a[1], b[3]), Mul(a[1], b[2]) - Mul(a[2], b[1])>>
VSum(s, n) == FoldLeft(LAMBDA a, x : VAdd(a, x), [d \in 1 .. n |-> 0], s)
===============================================================================
