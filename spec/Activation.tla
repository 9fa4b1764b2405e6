-------------------------------- MODULE Activation --------------------------------
(* The activation functions and their slopes (C25), in units of 1/16384 ("U").          *)
(* S[k+1] = sigmoid(k/32), G[k+1] = exp(-(k/128)^2): MCActivation derives that these    *)
(* are the functions from what defines them (addition theorems, values and slopes at    *)
(* zero).  Between two points: linear interpolation, less than one unit from the truth. *)
EXTENDS Integers, Sequences
U == 16384
S == <<
    8192, 8320, 8448, 8576, 8703, 8831, 8958, 9084, 9211, 9336, 9462, 9586, 9710, 9833, 9956, 10078, 10198,
    10318, 10437, 10555, 10672, 10788, 10902, 11015, 11128, 11239, 11348, 11457, 11564, 11669, 11773, 11876,
    11978, 12078, 12176, 12273, 12369, 12463, 12555, 12646, 12735, 12823, 12909, 12994, 13077, 13159, 13239,
    13318, 13395, 13471, 13545, 13617, 13689, 13758, 13826, 13893, 13958, 14022, 14085, 14146, 14206, 14264,
    14321, 14377, 14431, 14484, 14536, 14587, 14636, 14684, 14731, 14777, 14822, 14865, 14908, 14949, 14990,
    15029, 15067, 15105, 15141, 15177, 15211, 15245, 15277, 15309, 15340, 15370, 15400, 15428, 15456, 15483,
    15509, 15535, 15559, 15584, 15607, 15630, 15652, 15673, 15694, 15715, 15735, 15754, 15772, 15791, 15808,
    15825, 15842, 15858, 15874, 15889, 15904, 15918, 15932, 15946, 15959, 15971, 15984, 15996, 16008, 16019,
    16030, 16041, 16051, 16061, 16071, 16080, 16089, 16098, 16107, 16115, 16123, 16131, 16139, 16146, 16154,
    16161, 16167, 16174, 16180, 16187, 16193, 16198, 16204, 16209, 16215, 16220, 16225, 16230, 16234, 16239,
    16243, 16248, 16252, 16256, 16260, 16264, 16267, 16271, 16274, 16278, 16281, 16284, 16287, 16290, 16293,
    16296, 16298, 16301, 16304, 16306, 16308, 16311, 16313, 16315, 16317, 16319, 16321, 16323, 16325, 16327,
    16329, 16330, 16332, 16334, 16335, 16337, 16338, 16340, 16341, 16342, 16343, 16345, 16346, 16347, 16348,
    16349, 16350, 16351, 16352, 16353, 16354, 16355, 16356, 16357, 16358, 16359, 16359, 16360, 16361, 16362,
    16362, 16363, 16364, 16364, 16365, 16365, 16366, 16367, 16367, 16368, 16368, 16369, 16369, 16370, 16370,
    16370, 16371, 16371, 16372, 16372, 16372, 16373, 16373, 16373, 16374, 16374, 16374, 16375, 16375, 16375,
    16375, 16376, 16376, 16376, 16376, 16377, 16377, 16377, 16377, 16378, 16378, 16378, 16378, 16378, 16379,
    16379, 16379, 16379, 16379, 16379, 16379, 16380, 16380, 16380, 16380, 16380, 16380, 16380, 16380, 16381,
    16381, 16381, 16381, 16381, 16381, 16381, 16381, 16381, 16381, 16381, 16382, 16382, 16382, 16382, 16382,
    16382, 16382, 16382, 16382, 16382, 16382, 16382, 16382, 16382, 16382, 16382, 16383, 16383, 16383, 16383,
    16383, 16383, 16383, 16383, 16383, 16383, 16383, 16383, 16383, 16383, 16383, 16383, 16383, 16383, 16383,
    16383, 16383, 16383, 16383, 16383, 16383, 16383, 16383, 16383, 16383, 16383, 16383, 16383, 16383, 16383,
    16383, 16384, 16384, 16384, 16384, 16384, 16384, 16384, 16384, 16384, 16384, 16384, 16384, 16384, 16384,
    16384, 16384, 16384, 16384, 16384, 16384, 16384, 16384, 16384, 16384, 16384, 16384, 16384, 16384, 16384,
    16384, 16384, 16384, 16384, 16384, 16384, 16384, 16384, 16384, 16384, 16384, 16384, 16384, 16384, 16384,
    16384, 16384, 16384, 16384, 16384, 16384, 16384, 16384>>
G == <<
    16384, 16383, 16380, 16375, 16368, 16359, 16348, 16335, 16320, 16303, 16284, 16263, 16241, 16216, 16189,
    16161, 16130, 16098, 16063, 16027, 15989, 15949, 15907, 15863, 15818, 15771, 15722, 15671, 15618, 15564,
    15508, 15451, 15391, 15330, 15268, 15204, 15138, 15071, 15002, 14931, 14860, 14786, 14712, 14636, 14558,
    14479, 14399, 14317, 14235, 14151, 14065, 13979, 13891, 13803, 13713, 13622, 13530, 13437, 13343, 13248,
    13152, 13055, 12958, 12859, 12760, 12660, 12559, 12457, 12355, 12252, 12149, 12045, 11940, 11835, 11729,
    11623, 11516, 11409, 11302, 11194, 11086, 10978, 10869, 10760, 10651, 10542, 10432, 10323, 10213, 10103,
    9993, 9884, 9774, 9664, 9554, 9445, 9335, 9226, 9117, 9008, 8899, 8791, 8682, 8574, 8467, 8359, 8252,
    8146, 8040, 7934, 7829, 7724, 7619, 7515, 7412, 7309, 7207, 7105, 7004, 6903, 6803, 6704, 6605, 6507,
    6410, 6313, 6217, 6122, 6027, 5934, 5840, 5748, 5657, 5566, 5476, 5387, 5298, 5211, 5124, 5038, 4953,
    4869, 4786, 4703, 4621, 4541, 4461, 4382, 4303, 4226, 4150, 4074, 3999, 3926, 3853, 3781, 3710, 3640,
    3570, 3502, 3434, 3368, 3302, 3237, 3173, 3110, 3048, 2986, 2926, 2866, 2808, 2750, 2693, 2637, 2582,
    2527, 2474, 2421, 2369, 2318, 2268, 2218, 2170, 2122, 2075, 2029, 1983, 1939, 1895, 1852, 1809, 1768,
    1727, 1687, 1647, 1609, 1571, 1534, 1497, 1461, 1426, 1392, 1358, 1325, 1292, 1260, 1229, 1198, 1168,
    1139, 1110, 1082, 1055, 1028, 1001, 975, 950, 925, 901, 877, 854, 831, 809, 787, 766, 746, 725, 706, 686,
    667, 649, 631, 613, 596, 579, 563, 547, 532, 516, 502, 487, 473, 459, 446, 433, 420, 408, 396, 384, 372,
    361, 350, 340, 329, 319, 310, 300, 291, 282, 273, 265, 256, 248, 240, 233, 225, 218, 211, 204, 198, 191,
    185, 179, 173, 168, 162, 157, 152, 146, 142, 137, 132, 128, 123, 119, 115, 111, 107, 104, 100, 97, 93, 90,
    87, 84, 81, 78, 75, 73, 70, 67, 65, 63, 60, 58, 56, 54, 52, 50, 48, 46, 45, 43, 41, 40, 38, 37, 36, 34,
    33, 32, 30, 29, 28, 27, 26, 25, 24, 23, 22, 21, 20, 20, 19, 18, 17, 17, 16, 15, 15, 14, 14, 13, 12, 12,
    11, 11, 11, 10, 10, 9, 9, 9, 8, 8, 7, 7, 7, 7, 6, 6, 6, 6, 5, 5, 5, 5, 4, 4, 4, 4, 4, 4, 3, 3, 3, 3, 3, 3,
    3, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0,
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>
AbsV(x) == IF x < 0 THEN -x ELSE x
Near(a, b, grain) == AbsV(a - b) <= grain
(* a * b / U, rounded; a, b up to 32 * U in magnitude *)
MulPos(a, b) == LET ah == a \div 128 al == a % 128 bh == b \div 128 bl == b % 128 IN
    (ah * bh) + ((((ah * bl) + (al * bh)) + ((al * bl) \div 128) + 64) \div 128)
Mul(a, b) == IF (a < 0) = (b < 0) THEN MulPos(AbsV(a), AbsV(b)) ELSE -MulPos(AbsV(a), AbsV(b))
Over(a, n) == IF a >= 0 THEN (a + (n \div 2)) \div n ELSE -((-a + (n \div 2)) \div n)
SigP(x) == IF x >= 12 * U THEN U ELSE LET k == x \div 512 r == x % 512 IN S[k + 1] + Over((S[k + 2] - S[k + 1]) * r, 512)
Sig(x) == IF x >= 0 THEN SigP(x) ELSE U - SigP(-x)
SigSlope(x) == LET y == Sig(x) IN Mul(y, U - y)
Gau(x) == LET a == AbsV(x) IN IF a >= 4 * U THEN 0 ELSE LET k == a \div 128 r == a % 128 IN G[k + 1] + Over((G[k + 2] - G[k + 1]) * r, 128)
K == 27886                                               \* 1.702
Names == {"sigmoid", "iSigmoid", "tanh", "ReLU", "GELU", "gaussian", "identity"}
(* x in U, up to 16 * U in magnitude; sgn: its sign, for arguments below the unit *)
F(a, x) ==
    CASE a = "sigmoid" -> Sig(x)
      [] a = "iSigmoid" -> Sig(x) + Over(x, 20)
      [] a = "tanh" -> 2 * Sig(2 * x) - U
      [] a = "ReLU" -> IF x > 0 THEN x ELSE 0
      [] a = "GELU" -> Mul(x, Sig(Mul(K, x)))
      [] a = "gaussian" -> Gau(x)
      [] a = "identity" -> x
Slope(a, x, sgn) ==
    CASE a = "sigmoid" -> SigSlope(x)
      [] a = "iSigmoid" -> SigSlope(x) + Over(U, 20)
      [] a = "tanh" -> 4 * SigSlope(2 * x)
      [] a = "ReLU" -> IF sgn > 0 THEN U ELSE 0
      [] a = "GELU" -> LET z == Mul(K, x) IN Mul(z, SigSlope(z)) + Sig(z)
      [] a = "gaussian" -> -2 * Mul(x, Gau(x))
      [] a = "identity" -> U
(* what rounding, interpolation and the units of x and y leave open *)
Grain(a, x) == CASE a \in {"ReLU", "identity"} -> 2 [] a = "GELU" -> 5 + (AbsV(x) \div (4 * U)) [] OTHER -> 4
SlopeGrain(a, x) == CASE a \in {"ReLU", "identity"} -> 2 [] a = "GELU" -> 8 + (AbsV(x) \div U) [] a = "tanh" -> 10 [] a = "gaussian" -> 8 [] OTHER -> 6
(* beyond 16 in magnitude: the value, or (where it grows) its ratio to x; inv = U/|x| *)
FarValue(a, sgn) == CASE a = "sigmoid" -> IF sgn > 0 THEN U ELSE 0
                      [] a = "tanh" -> sgn * U
                      [] a \in {"ReLU", "GELU", "gaussian"} -> 0
FarRatio(a, inv, sgn) == CASE a = "iSigmoid" -> Over(U, 20) + (IF sgn > 0 THEN inv ELSE 0)
                          [] OTHER -> U
Grows(a, sgn) == a \in {"iSigmoid", "identity"} \/ (a \in {"ReLU", "GELU"} /\ sgn > 0)
FarSlope(a, sgn) == CASE a = "iSigmoid" -> Over(U, 20)
                      [] a = "identity" -> U
                      [] a \in {"ReLU", "GELU"} -> IF sgn > 0 THEN U ELSE 0
                      [] OTHER -> 0
====================================================================================
