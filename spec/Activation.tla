----------------------------- MODULE Activation -----------------------------
(***************************************************************************)
(* Activation functions and their derivatives in fixed point (C20).        *)
(* An activation is a record [f |-> name, p |-> parameters].               *)
(***************************************************************************)
EXTENDS Fixed

F(v) == v * S
Clamp(x, lo, hi) == FMax(lo, FMin(x, hi))
Fifth == 13107       \* 0.2
HardSigmoid(x) == Clamp(FMul(Fifth, x) + S \div 2, 0, S)
RSqrt1(x) == FSqrt(S + FMul(x, x))
\* tanh(log(1 + exp x))
TanhSoftplus(x) ==
  IF x >= 0 THEN LET u == FExp(-x)  n == S + 2 * u IN FDiv(n, n + 2 * FMul(u, u))
  ELSE LET e == FExp(x)  n == FMul(e, e + 2 * S) IN FDiv(n, n + 2 * S)
InvSqrt2 == 46341
InvSqrt2Pi == 26145
Phi(x) == (S + FErf(FMul(InvSqrt2, x))) \div 2
Pdf(x) == FMul(InvSqrt2Pi, FExp(-FMul(x, x) \div 2))
GeluK == 52290       \* sqrt(2 / pi)
GeluC == 2930        \* 0.044715
GeluIn(x) == FMul(GeluK, x + FMul(GeluC, FMul(x, FMul(x, x))))

\* p is <<slope, offset, min, max>> for clipped_linear, <<n>> for relu_k, <<threshold>> for mish
Act(a, x) ==
  CASE a.f = "relu" -> FMax(0, x)
    [] a.f = "identity" -> x
    [] a.f = "clipped_linear" -> Clamp(FMul(a.p[1], x) + a.p[2], a.p[3], a.p[4])
    [] a.f = "relu_k" -> Clamp(x, 0, a.p[1])
    [] a.f = "hard_sigmoid" -> HardSigmoid(x)
    [] a.f = "hard_tanh" -> Clamp(x, -S, S)
    [] a.f = "sigmoid" -> FSigmoid(x)
    [] a.f = "tanh" -> FTanh(x)
    [] a.f = "erf" -> FErf(x)
    [] a.f = "sechsq" -> LET t == FTanh(x) IN S - FMul(t, t)
    [] a.f = "swish" -> FMul(x, FSigmoid(x))
    [] a.f = "hard_swish" -> FMul(x, HardSigmoid(x))
    [] a.f = "hard_swish_mobilenet" -> FMul(x, Clamp(x + F(3), 0, F(6)) \div 6)
    [] a.f = "dish" -> FMul(x, FDiv(x, RSqrt1(x)) + S) \div 2
    [] a.f = "gelu_approx" -> FMul(x, S + FTanh(GeluIn(x))) \div 2
    [] a.f = "gelu" -> FMul(x, Phi(x))
    [] a.f = "mish" -> IF x >= a.p[1] THEN x ELSE FMul(x, TanhSoftplus(x))

\* derivatives at x: both one-sided ones at a kink
Sides(l, r) == {l, r}
DClamp(x, lo, hi, slope) == IF x < lo \/ x > hi THEN {0} ELSE IF x = lo \/ x = hi THEN Sides(0, slope) ELSE {slope}
DAct(a, x) ==
  CASE a.f = "relu" -> DClamp(x, 0, Big, S)
    [] a.f = "identity" -> {S}
    [] a.f = "clipped_linear" -> DClamp(FMul(a.p[1], x) + a.p[2], a.p[3], a.p[4], a.p[1])
    [] a.f = "relu_k" -> DClamp(x, 0, a.p[1], S)
    [] a.f = "hard_sigmoid" -> DClamp(x, -163840, 163840, Fifth)
    [] a.f = "hard_tanh" -> DClamp(x, -S, S, S)
    [] a.f = "sigmoid" -> LET y == FSigmoid(x) IN {FMul(y, S - y)}
    [] a.f = "tanh" -> LET y == FTanh(x) IN {S - FMul(y, y)}
    [] a.f = "swish" -> LET y == FSigmoid(x) IN {y + FMul(x, FMul(y, S - y))}
    [] a.f = "hard_swish" -> (LET m == FMul(26214, x) + S \div 2 IN
                              IF x < -163840 THEN {0} ELSE IF x > 163840 THEN {S}
                              ELSE IF x = -163840 THEN Sides(0, m) ELSE IF x = 163840 THEN Sides(S, m) ELSE {m})
    [] a.f = "hard_swish_mobilenet" -> (LET m == (2 * x + F(3)) \div 6 IN
                              IF x < F(-3) THEN {0} ELSE IF x > F(3) THEN {S}
                              ELSE IF x = F(-3) THEN Sides(0, m) ELSE IF x = F(3) THEN Sides(S, m) ELSE {m})
    [] a.f = "dish" -> LET r == FDiv(x, RSqrt1(x))  q == FDiv(S, RSqrt1(x)) IN {(S + r + FMul(r, FMul(q, q))) \div 2}
    [] a.f = "gelu_approx" ->
         LET t == FTanh(GeluIn(x)) IN
         {(S + t) \div 2 + FMul(x, FMul(S - FMul(t, t), FMul(GeluK, S + 3 * FMul(GeluC, FMul(x, x))))) \div 2}
    [] a.f = "gelu" -> {Phi(x) + FMul(x, Pdf(x))}
    [] a.f = "mish" -> (LET t == TanhSoftplus(x)
                            d == t + FMul(x, FMul(S - FMul(t, t), FSigmoid(x)))
                        IN IF x > a.p[1] THEN {S} ELSE IF x = a.p[1] THEN Sides(S, d) ELSE {d})

\* softmax of a row, at a temperature
Top(s) == CHOOSE m \in {s[j] : j \in 1..Len(s)} : \A j \in 1..Len(s) : s[j] <= m
SoftmaxRow(row, temp) ==
  IF row = <<>> THEN <<>>
  ELSE LET q == [j \in 1..Len(row) |-> IF temp = S THEN row[j] ELSE FDiv(row[j], temp)]
           e == [j \in 1..Len(row) |-> FExp(q[j] - Top(q))]
           ee == IF e = e THEN e ELSE <<>>
           s == FSum(ee)
       IN [j \in 1..Len(row) |-> FDiv(ee[j], s)]
\* its backward pass, from the output y
BackSoftmaxRow(y, dy, temp) ==
  LET s == FDot(y, dy) IN [j \in 1..Len(y) |-> LET d == FMul(y[j], dy[j] - s) IN IF temp = S THEN d ELSE FDiv(d, temp)]
=============================================================================
