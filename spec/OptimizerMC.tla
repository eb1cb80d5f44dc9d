----------------------------- MODULE OptimizerMC -----------------------------
(***************************************************************************)
(* Design run of Optimizer: two keys updated in every order with gradients *)
(* from a small set; `own` replays each key's updates alone.               *)
(***************************************************************************)
EXTENDS Optimizer
CONSTANTS MaxUpdates, Grads, Algos
VARIABLES h, w, ks, own, n, last
vars == <<h, w, ks, own, n, last>>
Keys == {1, 2}
GradVals == { <<(a - 3) * S, (b - 3) * S>> : a \in Grads, b \in Grads }   \* TLC reads no negative constants
W0 == <<2 * S, -S>>
Hypers == { [algo |-> a, decay |-> d, avg |-> TRUE, lr |-> S \div 4, b1 |-> b1, b2 |-> b2, eps |-> S \div 8, l2 |-> l, clip |-> c] :
            a \in Algos, d \in BOOLEAN, b1 \in {S \div 2, FNum(9, 10)}, b2 \in {FNum(7, 8)}, l \in {0, S \div 8}, c \in {0, S} }
Init == /\ h \in Hypers
        /\ w = [k \in Keys |-> W0]
        /\ ks = [k \in Keys |-> Fresh(2)]
        /\ own = [k \in Keys |-> <<>>]
        /\ n = 0
        /\ last = [k |-> 0, g |-> <<0, 0>>, before |-> W0]
Step(k, g) == LET r == Update(h, ks[k], w[k], g, S) IN
  /\ n < MaxUpdates
  /\ w' = [w EXCEPT ![k] = r.w]
  /\ ks' = [ks EXCEPT ![k] = r.ks]
  /\ own' = [own EXCEPT ![k] = Append(@, g)]
  /\ n' = n + 1
  /\ last' = [k |-> k, g |-> g, before |-> w[k]]
  /\ UNCHANGED h
Next == \E k \in Keys : \E g \in GradVals : Step(k, g)
Spec == Init /\ [][Next]_vars
\* a key depends on its own updates only
RECURSIVE Alone(_)
Alone(gs) == IF gs = <<>> THEN [w |-> W0, ks |-> Fresh(2)]
             ELSE LET r == Alone(SubSeq(gs, 1, Len(gs) - 1)) IN Update(h, r.ks, r.w, gs[Len(gs)], S)
Independent == \A k \in Keys : Alone(own[k]) = [w |-> w[k], ks |-> ks[k]]
Counts == \A k \in Keys : ks[k].n = Len(own[k])
ClipBound == n > 0 /\ h.clip # 0 => Norm(Clipped(last.g, h.clip)) <= h.clip + 16
\* the first update, without regularization, is the one of the textbook
First == n = 1 /\ h.l2 = 0 /\ h.clip = 0 =>
  \A j \in 1..2 : LET g == last.g[j]  d == last.before[j] - w[last.k][j] IN
    Near(d, CASE h.algo = "sgd" -> FMul(h.lr, g)
              [] h.algo = "radam" -> FMul(h.lr, g)
              [] h.algo = "adam" -> FMul(h.lr, FDiv(g, FAbs(g) + FDiv(h.eps, FSqrt(S - h.b2)))), 60)
\* the average lies between zero, where it starts, and the weights it has seen
AvgBound == \A k \in Keys : ks[k].n = 1 => \A j \in 1..2 : Near(ks[k].ema[j], FDiv(9 * w[k][j], 11 * S), 20)
SmaBounds == h.algo = "radam" => \A j \in 1..12 : Sma(h, j) <= Sma(h, j + 1) /\ Sma(h, j) <= SmaMax(h) /\ (Rectified(h, j) => Rectifier(h, j) <= S)
=============================================================================
