----------------------------- MODULE DropoutMC -----------------------------
(***************************************************************************)
(* Design checks: all histories of setting rates, enabling, passes and     *)
(* their backward passes, in any order, over the given models.  Masks are  *)
(* drawn nondeterministically.                                             *)
(***************************************************************************)
EXTENDS Dropout
CONSTANTS Rates, MaxPasses, MaxSteps
VARIABLES nodes, expr, passes, last, steps
vars == <<nodes, expr, passes, last, steps>>
D(n) == [k |-> "drop", n |-> n]
Exprs == {D(1), [k |-> "seq", s |-> <<D(1), D(2)>>], [k |-> "res", s |-> <<D(1)>>], [k |-> "seq", s |-> <<[k |-> "id"], [k |-> "res", s |-> <<D(2)>>]>>],
          [k |-> "seq", s |-> <<D(1), D(1)>>], [k |-> "id"]}
X == <<S, -3 * S, 2 * S>>
G == <<2 * S, S, -S>>
Init == nodes = <<[name |-> "dropout_rate", rate |-> 0, on |-> TRUE], [name |-> "other", rate |-> S \div 2, on |-> TRUE]>>
        /\ expr \in Exprs /\ passes = <<>> /\ last = [k |-> "none"] /\ steps = 0
Rate == \E r \in Rates, nm \in SUBSET {"dropout_rate", "other"} : nodes' = SetRate(nodes, nm, r) /\ last' = [k |-> "rate"] /\ UNCHANGED <<expr, passes>>
Switch == \E n \in 1..2, b \in BOOLEAN : nodes' = Enable(nodes, n, b) /\ last' = [k |-> "switch"] /\ UNCHANGED <<expr, passes>>
Pass == Len(passes) < MaxPasses /\ \E train \in BOOLEAN : \E m \in [1..Len(X) -> Factors(expr, nodes, train)] :
          /\ passes' = Append(passes, [m |-> m, train |-> train])
          /\ last' = [k |-> "pass", train |-> train, y |-> Scale(X, m), m |-> m]
          /\ UNCHANGED <<nodes, expr>>
Back == \E j \in 1..Len(passes) : /\ passes[j].train
          /\ last' = [k |-> "back", j |-> j, d |-> Scale(G, passes[j].m)] /\ UNCHANGED <<nodes, expr, passes>>
Next == steps < MaxSteps /\ steps' = steps + 1 /\ (Rate \/ Switch \/ Pass \/ Back)
Spec == Init /\ [][Next]_vars
\* predictions apply no dropout, whatever was set
NothingAtPrediction == (last.k = "pass" /\ ~last.train) => \A j \in 1..Len(X) : last.m[j] = (CASE expr.k = "res" -> 2 * S [] expr.k = "seq" /\ expr.s[1].k = "id" -> 2 * S [] OTHER -> S)
\* the backward pass is the transpose of its forward pass
Transpose == last.k = "back" => FAbs(FDot(Scale(X, passes[last.j].m), G) - FDot(X, last.d)) <= 6
\* the mask can be told from a pass: the trace judge reads it off the result
ReadOff == last.k = "pass" => MaskOf(Factors(expr, nodes, last.train), X, last.y, 0) = last.m
\* the expected factor is one: zero with probability rate, else its inverse
MeanIsOne == \A n \in 1..2 : (Active(nodes[n]) /\ nodes[n].rate < S) => FAbs(FMul(S - nodes[n].rate, CHOOSE f \in NodeFactors(nodes[n], TRUE) : f # 0) - S) <= 4
=============================================================================
