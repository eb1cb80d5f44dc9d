------------------------------- MODULE FixedMC -------------------------------
(* Laws of Fixed on a grid of arguments (bounds in units of the last place). *)
EXTENDS Fixed
CONSTANTS Grid, Limit
VARIABLES a, b, go
vars == <<a, b, go>>
Pts == {j * Grid : j \in -Limit..Limit}
Init == a \in Pts /\ b = 0 /\ go = FALSE
Next == ~go /\ go' = TRUE /\ b' \in Pts /\ UNCHANGED a
Spec == Init /\ [][Next]_vars
Go == go
Close(x, y, n) == FAbs(x - y) <= n
\* the exact relative tolerance of a product of p
Slack(p) == 4 + FAbs(p) \div 8192
MulDiv == Go /\ FAbs(b) > 600 => Close(FMul(FDiv(a, b), b), a, 2 + FAbs(b) \div 32768)
MulComm == Go => FMul(a, b) = FMul(b, a) /\ FMul(a, S) = a
SqrtSq == a >= 0 => LET r == FSqrt(a) IN FMul(r, r) <= a /\ FMul(r + 1, r + 1) >= a
ExpAdd == Go /\ a + b < 500000 /\ a < 500000 /\ b < 500000 /\ a > -500000 /\ b > -500000 =>
            LET p == FMul(FExp(a), FExp(b)) IN Close(FExp(a + b), p, 8 + FExp(a + b) \div 4096 + FMax(FExp(a), FExp(b)) \div 16384)
ExpMono == Go /\ a <= b /\ b < 500000 => FExp(a) <= FExp(b) + FExp(b) \div 8192
Odd == /\ Close(FTanh(-a), -FTanh(a), 0)
       /\ Close(FErf(-a), -FErf(a), 8)
       /\ Close(FSigmoid(a) + FSigmoid(-a), S, 2)
       /\ FAbs(FTanh(a)) <= S /\ FAbs(FErf(a)) <= S
TanhSigmoid == FAbs(a) < 300000 => Close(FTanh(a), 2 * FSigmoid(2 * a) - S, 4)
LogExp == a < 300000 /\ a > -300000 => Close(FLog(FExp(a)), a, 10 + (3 * FDiv(S, FMax(FExp(a), 1))) \div S)
\* known values: e, 1/e, erf(1), tanh(1), sqrt(2), ln 2
Known == /\ Close(FExp(S), 178145, 6) /\ Close(FExp(-S), 24109, 2)
         /\ Close(FErf(S), 55227, 4) /\ Close(FTanh(S), 49912, 3) /\ Close(FSqrt(2 * S), 92681, 1)
         /\ Close(FLog(2 * S), 45426, 2) /\ Close(FErf(S \div 2), 34111, 4)
=============================================================================
