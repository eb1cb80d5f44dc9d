----------------------------- MODULE MinibatchMC -----------------------------
(***************************************************************************)
(* Design run of Minibatch: iterators over up to MaxN items with every     *)
(* sequence of sizes, and MaxPasses passes in progress.  A pass draws its  *)
(* order when it starts; every finished pass has yielded a permutation.    *)
(* OrderOf = "pass" is the design; "iterator" (one order, redrawn whenever *)
(* a pass starts) is the one that does not satisfy Complete.               *)
(***************************************************************************)
EXTENDS Minibatch
CONSTANTS MaxN, MaxSize, MaxPasses, OrderOf
VARIABLES n, sizes, shuffled, order, passes
vars == <<n, sizes, shuffled, order, passes>>
Perms == IF shuffled THEN {f \in [1..n -> 1..n] : Range(f) = 1..n} ELSE {[j \in 1..n |-> j]}
Init == /\ n \in 0..MaxN
        /\ sizes \in [1..n -> 1..MaxSize]
        /\ shuffled \in BOOLEAN
        /\ order = <<>>
        /\ passes = <<>>
Begin == /\ Len(passes) < MaxPasses
         /\ \E f \in Perms :
              /\ order' = (IF OrderOf = "pass" THEN Append(order, f) ELSE [j \in 1..(Len(order) + 1) |-> f])
              /\ passes' = Append(passes, NewPass)
         /\ UNCHANGED <<n, sizes, shuffled>>
BatchOf(p) == LET lo == SumTo(sizes, passes[p].at) IN [j \in 1..BatchSize(sizes, n, passes[p].at + 1) |-> order[p][lo + j]]
Step(p) == /\ ~passes[p].over
           /\ passes' = [passes EXCEPT ![p] = IF @.at < BatchCount(sizes, n) THEN Yielded(@, BatchOf(p)) ELSE [@ EXCEPT !.over = TRUE]]
           /\ UNCHANGED <<n, sizes, shuffled, order>>
Next == Begin \/ \E p \in 1..Len(passes) : Step(p)
Spec == Init /\ [][Next]_vars
Complete == \A p \in 1..Len(passes) : passes[p].over => /\ Range(passes[p].seen) = 1..n /\ Len(passes[p].seen) = n
                                                        /\ EndVerdict(sizes, n, passes[p]) = "ok"
NoneTwice == \A p \in 1..Len(passes) : Cardinality(Range(passes[p].seen)) = Len(passes[p].seen)
\* the verdicts accept every behaviour of the design
Accepted == [][\A p \in 1..Len(passes) : passes'[p].at > passes[p].at =>
                 YieldVerdict(sizes, n, shuffled, passes[p], BatchOf(p)) = "ok"]_vars
=============================================================================
