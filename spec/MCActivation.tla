------------------------------- MODULE MCActivation -------------------------------
(* The tables of Activation are the functions: the sigmoid is determined by its         *)
(* addition theorem  s(a+b) = s(a)s(b) / (s(a)s(b) + (1-s(a))(1-s(b))),  s(0) = 1/2 and *)
(* slope 1/4 at 0; exp(-x^2) by  g(x+h) g(x-h) = g(x)^2 g(h)^2, g(0) = 1, curvature -2. *)
(* The slopes agree with the differences of the functions; functions that are odd,      *)
(* complementary, increasing are.  Wrong # "none": a table or a slope that is not.      *)
EXTENDS Activation, TLC
CONSTANTS Step, Wrong
VARIABLES i, j
T(k) == IF Wrong = "table" /\ k > 40 THEN S[k + 1] - ((U - S[k + 1]) \div 20) ELSE S[k + 1]
E(k) == IF Wrong = "gauss" /\ k > 16 THEN G[k + 1] - (G[k + 1] \div 200) ELSE G[k + 1]
Init == i \in 0..384 /\ j = 0
Next == j + Step <= 384 /\ j' = j + Step /\ i' = i
Spec == Init /\ [][Next]_<<i, j>>
(* products of two values in units of 1/2^28 would not fit: scaled to 1/2^14 *)
Sum2 == i + j <= 384 => LET p == Mul(T(i), T(j)) q == Mul(U - T(i), U - T(j)) IN Near(Mul(T(i + j), p + q), p, 4)
Anchor == T(0) = U \div 2 /\ Near(T(1) - T(0), (U \div 128), 1)
Rises == i < 384 => T(i) <= T(i + 1)
Gauss == i + j <= 512 /\ i >= j => Near(Mul(E(i + j), E(i - j)), Mul(Mul(E(i), E(i)), Mul(E(j), E(j))), 5)
GAnchor == E(0) = U /\ Near(U - E(8), U \div 256, 2) /\ Near(U - E(16), U \div 64, 4)
X == (i - 192) * 512 + (j % 512)                          \* from -6 to 6
H == 1024
SlopeOf(a) == IF Wrong = "slope" /\ a = "gaussian" THEN Slope(a, X, 1) \div 2 ELSE Slope(a, X, IF X > 0 THEN 1 ELSE IF X < 0 THEN -1 ELSE 0)
(* central difference over 2H = 1/8: 8 * (F(x+H) - F(x-H)); the third derivative leaves h^2/6 of it *)
Slopes == \A a \in Names : (a = "ReLU" /\ AbsV(X) <= H) \/ Near(8 * (F(a, X + H) - F(a, X - H)), SlopeOf(a), 110)
Symmetric == /\ F("sigmoid", -X) = U - F("sigmoid", X) /\ F("tanh", -X) = -F("tanh", X)
             /\ F("gaussian", -X) = F("gaussian", X)
             /\ Near(F("GELU", X) - F("GELU", -X), X, 3) /\ Near(F("iSigmoid", -X), U - F("iSigmoid", X), 2)
FarJoins == \A a \in Names : \A sg \in {-1, 1} : LET x == sg * 16 * U IN
    /\ Near(Slope(a, x, sg), FarSlope(a, sg), 3)
    /\ IF Grows(a, sg) THEN Near(F(a, x), 16 * sg * FarRatio(a, U \div 16, sg), 32) ELSE Near(F(a, x), FarValue(a, sg), 3)
====================================================================================
