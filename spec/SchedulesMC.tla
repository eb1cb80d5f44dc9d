----------------------------- MODULE SchedulesMC -----------------------------
(***************************************************************************)
(* Design run of Schedules: every history of evaluations and queries of a  *)
(* plateau, and the shape of the stateless schedules for every step.       *)
(***************************************************************************)
EXTENDS Schedules
CONSTANTS MaxSteps, MaxEvals, MaxScore, MaxPatience
VARIABLES mode, x, hist, st, step
vars == <<mode, x, hist, st, step>>
Shapes == { [k |-> "decaying", a |-> 8 * S, b |-> FNum(b, 8), t |-> 0] : b \in 1..8 }
     \cup { [k |-> "compounding", a |-> a * S, b |-> b * S, c |-> FNum(c, 8), n |-> n] : a \in {1, 4, 9}, b \in {2, 6}, c \in {5, 7, 9, 12}, n \in {0, 2} }
     \cup { [k |-> "slanted", a |-> 4 * S, n |-> q[1] * q[2], cut |-> q[1], c |-> q[2] * S, r |-> r, t |-> 0] : q \in {<<1, 4>>, <<2, 4>>, <<4, 2>>, <<3, 5>>}, r \in {2, 32} }
     \cup { [k |-> "warmup", a |-> 6 * S, n |-> q[1], m |-> q[2]] : q \in {<<0, 4>>, <<2, 9>>, <<5, 5>>, <<3, 4>>} }
     \cup { [k |-> "cyclic", a |-> a * S, b |-> b * S, n |-> n] : a \in {0, 1}, b \in {2, 5}, n \in 1..5 }
Patience == { [k |-> "plateau", n |-> p, c |-> S \div 2] : p \in 1..MaxPatience }
Init == \/ mode = "shape" /\ x \in Shapes /\ step \in 0..MaxSteps /\ hist = <<>> /\ st = NoPlateau
        \/ mode = "plateau" /\ x \in Patience /\ step = 0 /\ hist = <<>> /\ st = NoPlateau
\* a new evaluation, or a query without one, or with the same one again
Evaluate == /\ mode = "plateau" /\ Len(hist) < MaxEvals
            /\ \E sc \in 0..MaxScore :
                 /\ hist' = Append(hist, sc)
                 /\ st' = PlateauNext(st, <<10 * (Len(hist) + 1), sc>>, x.n)
            /\ UNCHANGED <<mode, x, step>>
Again == /\ mode = "plateau" /\ hist # <<>>
         /\ st' \in {PlateauNext(st, <<>>, x.n), PlateauNext(st, <<10 * Len(hist), hist[Len(hist)]>>, x.n)}
         /\ UNCHANGED <<mode, x, step, hist>>
Next == Evaluate \/ Again
Spec == Init /\ [][Next]_vars
\* the plateaus of a history, said without the state machine: every run of evaluations
\* since the last improvement counts once per full patience
Best(m) == CHOOSE b \in {hist[j] : j \in 1..m} : \A j \in 1..m : hist[j] <= b
Improves(j) == j = 1 \/ hist[j] > Best(j - 1)
RunLen(j) == IF Improves(j) THEN 0 ELSE j - (CHOOSE q \in 1..j : Improves(q) /\ \A w \in (q + 1)..j : ~Improves(w))
RECURSIVE CountPlateaus(_)
CountPlateaus(j) == IF j = 0 THEN 0 ELSE CountPlateaus(j - 1) + (IF RunLen(j) > 0 /\ RunLen(j) % x.n = 0 THEN 1 ELSE 0)
PlateauCount == mode = "plateau" => st.count = CountPlateaus(Len(hist))
\* repeated queries change nothing
Idempotent == [][hist' = hist => st' = st]_vars
V(s) == Stateless(x, s)
Between(v, a, b) == v >= FMin(a, b) - 8 /\ v <= FMax(a, b) + 8
Shape == mode = "shape" =>
  CASE x.k = "decaying" -> V(step + 1) <= V(step) /\ V(step) > 0 /\ V(0) = x.a
    [] x.k = "compounding" -> /\ (x.a <= x.b) = (x.c > S) => Between(V(step), x.a, x.b) /\ Between(V(step + 1), V(step), x.b)
                              /\ x.a <= x.b /\ x.c < S => V(step + 1) <= V(step)
    [] x.k = "slanted" -> /\ step < x.n => Between(V(step), FDiv(x.a, FInt(x.r)), x.a)
                          /\ FAbs(V(x.cut - 1) - x.a) <= 8
                          /\ step + 1 < x.cut => V(step) < V(step + 1)
                          /\ step + 1 > x.cut => V(step) > V(step + 1)
    [] x.k = "warmup" -> /\ Between(V(step), 0, x.a)
                         /\ x.n < x.m => V(x.n) = x.a
                         /\ step + 1 < x.n => V(step) <= V(step + 1)
                         /\ step >= x.n => V(step) >= V(step + 1)
                         /\ step >= x.m => V(step) = 0
    [] x.k = "cyclic" -> /\ Between(V(step), x.a, x.b)
                         /\ FAbs(V(step) - V(step + 2 * x.n)) <= 16
                         /\ FAbs(V(2 * x.n - 1) - x.a) <= 8 /\ FAbs(V(x.n - 1) - x.b) <= 8
=============================================================================
