------------------------------ MODULE Optimizer ------------------------------
(***************************************************************************)
(* The update of one parameter (C15), in fixed point.                      *)
(* Hyper-parameters of a step:                                             *)
(*   [algo |-> "sgd" | "adam" | "radam", decay |-> L2 is a weight decay,   *)
(*    avg |-> averages are kept, lr, b1, b2, eps, l2, clip]                *)
(* State of a key: [n |-> updates, m1, m2, ema].                           *)
(***************************************************************************)
EXTENDS Fixed

Fresh(k) == [n |-> 0, m1 |-> [j \in 1..k |-> 0], m2 |-> [j \in 1..k |-> 0], ema |-> [j \in 1..k |-> 0]]
Map2(f(_, _), a, b) == [j \in 1..Len(a) |-> f(a[j], b[j])]
Same(v) == IF v = v THEN v ELSE Assert(FALSE, "not a value")

Norm(g) == FSqrt(FSum([j \in 1..Len(g) |-> FMul(g[j], g[j])]))
Clipped(g, limit) ==
  IF limit = 0 THEN g
  ELSE LET nm == Norm(g) IN IF nm >= limit THEN [j \in 1..Len(g) |-> FDiv(FMul(g[j], limit), FMax(nm, 1))] ELSE g

\* moving average of past values
Mix(b, old, new) == FMul(b, old) + FMul(S - b, new)
NextM1(h, m1, g) == Map2(LAMBDA o, x : Mix(h.b1, o, x), m1, g)
NextM2(h, m2, g) == Map2(LAMBDA o, x : Mix(h.b2, o, FMul(x, x)), m2, g)

AdamStep(h, n, m1, m2, scale) ==
  LET lr == FMul(scale, FDiv(FMul(h.lr, FSqrt(S - FPow(h.b2, n))), S - FPow(h.b1, n)))
  IN [j \in 1..Len(m1) |-> FMul(lr, FDiv(m1[j], FSqrt(m2[j]) + h.eps))]

\* Liu et al. 2019: length of the approximated moving average, and its rectification
SmaMax(h) == FDiv(2 * S, S - h.b2) - S
Sma(h, n) == LET bt == FPow(h.b2, n) IN SmaMax(h) - 2 * n * FDiv(bt, S - bt)
Rectified(h, n) == Sma(h, n) >= 5 * S
Rectifier(h, n) ==
  LET r == Sma(h, n)  m == SmaMax(h)
      u == FDiv(FMul(r - 4 * S, FDiv(r - 2 * S, r)), FDiv(m - 4 * S, 1 * S))
  IN FSqrt(FMul(FMul(S - FPow(h.b2, n), u), FDiv(m, m - 2 * S)))
RAdamStep(h, n, m1, m2, scale) ==
  LET lr == FMul(scale, FDiv(h.lr, S - FPow(h.b1, n)))
  IN IF Rectified(h, n) THEN LET k == FMul(lr, Rectifier(h, n)) IN [j \in 1..Len(m1) |-> FMul(k, FDiv(m1[j], FSqrt(m2[j]) + h.eps))]
     ELSE [j \in 1..Len(m1) |-> FMul(lr, m1[j])]

AvgDecay(n) == FMin(FDiv((1 + n) * S, (10 + n) * S), 65529)     \* at most 0.9999

\* weights and state after the update with gradient g
Update(h, ks, w, g, scale) ==
  LET n == ks.n + 1
      g1 == Same(IF h.l2 # 0 /\ ~h.decay THEN Map2(LAMBDA x, y : x + FMul(h.l2, y), g, w) ELSE g)
      g2 == Same(Clipped(g1, h.clip))
      m1 == Same(IF h.algo = "sgd" THEN ks.m1 ELSE NextM1(h, ks.m1, g2))
      m2 == Same(IF h.algo = "sgd" THEN ks.m2 ELSE NextM2(h, ks.m2, g2))
      d == Same(CASE h.algo = "sgd" -> [j \in 1..Len(w) |-> FMul(FMul(scale, h.lr), g2[j])]
                  [] h.algo = "adam" -> AdamStep(h, n, m1, m2, scale)
                  [] h.algo = "radam" -> RAdamStep(h, n, m1, m2, scale))
      w1 == Same(Map2(LAMBDA x, y : x - y, w, d))
      w2 == Same(IF h.l2 # 0 /\ h.decay THEN [j \in 1..Len(w) |-> w1[j] - FMul(FMul(FMul(scale, h.lr), h.l2), w1[j])] ELSE w1)
      ema == Same(IF h.avg THEN [j \in 1..Len(w) |-> ks.ema[j] - FMul(S - AvgDecay(n), ks.ema[j] - w2[j])] ELSE ks.ema)
  IN [w |-> w2, ks |-> [n |-> n, m1 |-> m1, m2 |-> m2, ema |-> ema]]
=============================================================================
