------------------------------------ MODULE Act ------------------------------------
(* Fixed-point arithmetic (unit 1/4096, "Q") in TLC's 32-bit integers, and the         *)
(* activation functions with their slopes.  SigT[k+1] = sigmoid(k/16), GauT[k+1] =      *)
(* exp(-(k/32)^2), both in Q; between the points of a table: linear interpolation,     *)
(* whose error is at most 2 units.                                                     *)
EXTENDS Integers, Sequences, Functions
One == 4096
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a < b THEN b ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
(* product, rounded *)
Mul(a, b) == IF a < 46000 /\ a > -46000 /\ b < 46000 /\ b > -46000 THEN ((a * b) + 2048) \div 4096
             ELSE LET bh == b \div 64 bl == b % 64 ah == a \div 4096 al == a % 4096 IN
                  (ah * b) + ((al * bh + ((al * bl) \div 64) + 32) \div 64)
Div(a, n) == IF a >= 0 THEN (2 * a + n) \div (2 * n) ELSE -((n - 2 * a) \div (2 * n))      \* rounded, n > 0
SumTo(F(_), n) == FoldFunction(+, 0, [i \in 1..n |-> F(i)])
SumSeq(q) == SumTo(LAMBDA i : q[i], Len(q))
SigT == <<
    2048, 2112, 2176, 2239, 2303, 2365, 2428, 2489, 2550, 2609, 2668, 2726, 2782, 2837, 2891, 2943, 2994,
    3044, 3092, 3139, 3184, 3227, 3269, 3310, 3349, 3386, 3422, 3457, 3490, 3521, 3551, 3580, 3608, 3634,
    3659, 3683, 3705, 3727, 3747, 3767, 3785, 3803, 3819, 3835, 3850, 3864, 3877, 3890, 3902, 3913, 3924,
    3934, 3943, 3952, 3960, 3968, 3976, 3983, 3990, 3996, 4002, 4007, 4013, 4018, 4022, 4027, 4031, 4035,
    4038, 4042, 4045, 4048, 4051, 4054, 4056, 4059, 4061, 4063, 4065, 4067, 4069, 4070, 4072, 4073, 4075,
    4076, 4077, 4078, 4079, 4080, 4081, 4082, 4083, 4084, 4085, 4085, 4086, 4086, 4087, 4088, 4088, 4089,
    4089, 4089, 4090, 4090, 4091, 4091, 4091, 4091, 4092, 4092, 4092, 4092, 4093, 4093, 4093, 4093, 4093,
    4094, 4094, 4094, 4094, 4094, 4094, 4094, 4094, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095,
    4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4096, 4096, 4096, 4096, 4096, 4096, 4096, 4096,
    4096, 4096, 4096, 4096, 4096, 4096, 4096, 4096, 4096, 4096, 4096, 4096, 4096, 4096, 4096, 4096, 4096,
    4096, 4096, 4096, 4096, 4096, 4096, 4096, 4096, 4096, 4096, 4096, 4096, 4096, 4096, 4096, 4096, 4096,
    4096, 4096, 4096, 4096, 4096, 4096>>
GauT == <<
    4096, 4092, 4080, 4060, 4032, 3997, 3955, 3905, 3848, 3784, 3715, 3640, 3559, 3473, 3382, 3288, 3190,
    3089, 2985, 2879, 2771, 2663, 2553, 2443, 2334, 2225, 2117, 2010, 1905, 1802, 1701, 1602, 1507, 1414,
    1325, 1238, 1155, 1076, 1000, 927, 859, 793, 732, 673, 618, 567, 519, 474, 432, 393, 357, 323, 292, 264,
    237, 214, 192, 172, 153, 137, 122, 108, 96, 85, 75, 66, 58, 51, 45, 39, 34, 30, 26, 23, 19, 17, 15, 13,
    11, 9, 8, 7, 6, 5, 4, 4, 3, 3, 2, 2, 2, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>

SigP(x) == IF x >= 192 * 256 THEN One - (IF x < 200 * 256 THEN 0 ELSE 0)
           ELSE LET k == x \div 256 r == x % 256 IN SigT[k + 1] + Div((SigT[k + 2] - SigT[k + 1]) * r, 256)
Sig(x) == IF x >= 0 THEN SigP(x) ELSE One - SigP(-x)
SigSlope(x) == LET y == Sig(x) IN Mul(y, One - y)
Gau(x) == LET a == Abs(x) IN IF a >= 128 * 128 THEN 0
          ELSE LET k == a \div 128 r == a % 128 IN GauT[k + 1] + Div((GauT[k + 2] - GauT[k + 1]) * r, 128)
Q1702 == 6971        \* 1.702
Scale(x, q) == IF Abs(x) > 65536 THEN (IF x > 0 THEN 65536 ELSE -65536) ELSE Mul(x, q)
F(a, x) ==
    CASE a = "id" -> x
      [] a = "relu" -> IF x > 0 THEN x ELSE 0
      [] a = "sig" -> Sig(x)
      [] a = "isig" -> Sig(x) + Div(x, 20)
      [] a = "tanh" -> 2 * Sig(Scale(x, 2 * One)) - One
      [] a = "gelu" -> IF x > 40960 THEN x ELSE IF x < -40960 THEN 0 ELSE Mul(x, Sig(Scale(x, Q1702)))
      [] a = "gauss" -> Gau(x)
Slope(a, x) ==
    CASE a = "id" -> One
      [] a = "relu" -> IF x > 0 THEN One ELSE 0
      [] a = "sig" -> SigSlope(x)
      [] a = "isig" -> SigSlope(x) + Div(One, 20)
      [] a = "tanh" -> 4 * SigSlope(Scale(x, 2 * One))
      [] a = "gelu" -> IF x > 40960 THEN One ELSE IF x < -40960 THEN 0
                       ELSE LET z == Scale(x, Q1702) IN Mul(z, SigSlope(z)) + Sig(z)
      [] a = "gauss" -> IF Abs(x) >= 128 * 128 THEN 0 ELSE -2 * Mul(x, Gau(x))
====================================================================================
