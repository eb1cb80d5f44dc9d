---------------------------- MODULE ActivationMC ----------------------------
(***************************************************************************)
(* Design run of Activation: DAct is the derivative of Act (compared with  *)
(* central differences on a grid, away from kinks), softmax rows are       *)
(* distributions that do not change when the row is shifted, and           *)
(* BackSoftmaxRow is the transpose of the Jacobian.                        *)
(***************************************************************************)
EXTENDS Activation
CONSTANTS Step, Limit
VARIABLES a, x, row
vars == <<a, x, row>>
Names == {"relu", "identity", "relu_k", "hard_sigmoid", "hard_tanh", "sigmoid", "tanh", "swish", "hard_swish",
          "hard_swish_mobilenet", "dish", "gelu_approx", "gelu", "mish", "clipped_linear"}
ParamsOf(f) == CASE f = "relu_k" -> {<<6 * S>>, <<2 * S>>}
                 [] f = "mish" -> {<<20 * S>>, <<S>>}
                 [] f = "clipped_linear" -> {<<S, 0, 0, S>>, <<2 * S, S, -S, 3 * S>>, <<-S, 0, -S, S>>}
                 [] OTHER -> {<<>>}
Init == \E f \in Names : \E p \in ParamsOf(f) : a = [f |-> f, p |-> p] /\ x = 0 /\ row = <<>>
Next == \/ /\ x = 0 /\ row = <<>>
           /\ x' \in {j * Step : j \in -Limit..Limit}
           /\ UNCHANGED <<a, row>>
        \/ /\ a.f = "identity" /\ row = <<>>
           /\ \E u, v, w \in -3..3 : row' = <<u * 40000, v * S, w * 50000>>
           /\ x' = S /\ UNCHANGED a
Spec == Init /\ [][Next]_vars
H == 1024
Slope(y) == (Act(a, y + H) - Act(a, y - H)) * (S \div (2 * H))
\* the derivative hardly moves over the interval (it jumps at a kink)
Smooth == \A s \in {-H, 0, H} : \A d \in DAct(a, x + s) : \A e \in DAct(a, x) : FAbs(d - e) <= 3000
Derivative == row = <<>> /\ Smooth => \A d \in DAct(a, x) : FAbs(d - Slope(x)) <= 500 + FAbs(d) \div 128
Distribution == row # <<>> =>
  LET y == SoftmaxRow(row, S) IN
  /\ FAbs(FSum(y) - S) <= 8 /\ \A j \in 1..Len(y) : y[j] >= 0 /\ y[j] <= S
  /\ RowNear(SoftmaxRow([j \in 1..Len(row) |-> row[j] + 5 * S], S), y, 4)
Unit(j) == [q \in 1..3 |-> IF q = j THEN S ELSE 0]
Bump(r, j, h) == [r EXCEPT ![j] = @ + h]
JacobianT == row # <<>> => \A t \in {S, 2 * S} : LET y == SoftmaxRow(row, t) IN
  \A j \in 1..3 : \A k \in 1..3 :
    FAbs((SoftmaxRow(Bump(row, j, H), t)[k] - SoftmaxRow(Bump(row, j, -H), t)[k]) * (S \div (2 * H)) - BackSoftmaxRow(y, Unit(k), t)[j]) <= 600
=============================================================================
