------------------------------ MODULE Minibatch ------------------------------
(***************************************************************************)
(* Minibatch iterators (C13).  An iterator over n items with the sequence  *)
(* `sizes` of requested batch sizes yields N batches; any number of passes *)
(* over it may be in progress at the same time.                            *)
(*   pass = [at |-> batches yielded, seen |-> items yielded, over |-> ...] *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumTo(s, k - 1)

\* the number of batches: the least k with k sizes that cover all items
RECURSIVE CountFrom(_, _, _)
CountFrom(sizes, n, k) == IF SumTo(sizes, k) >= n THEN k ELSE CountFrom(sizes, n, k + 1)
BatchCount(sizes, n) == CountFrom(sizes, n, 0)
\* the size of batch k
BatchSize(sizes, n, k) == LET left == n - SumTo(sizes, k - 1) IN IF sizes[k] < left THEN sizes[k] ELSE left

NewPass == [at |-> 0, seen |-> <<>>, over |-> FALSE]
Range(s) == {s[j] : j \in 1..Len(s)}
\* the clause that yielding `batch` breaks, or "ok"
YieldVerdict(sizes, n, shuffled, p, batch) ==
  IF p.over THEN "a batch after the end"
  ELSE IF p.at >= BatchCount(sizes, n) THEN "more batches than the length says"
  ELSE IF Len(batch) # BatchSize(sizes, n, p.at + 1) THEN "size of a batch"
  ELSE IF \E j \in 1..Len(batch) : batch[j] \notin 1..n THEN "an item that is not in the input"
  ELSE IF Cardinality(Range(batch)) # Len(batch) \/ Range(batch) \cap Range(p.seen) # {} THEN "an item was yielded twice"
  ELSE IF ~shuffled /\ \E j \in 1..Len(batch) : batch[j] # Len(p.seen) + j THEN "order of the items"
  ELSE "ok"
Yielded(p, batch) == [p EXCEPT !.at = @ + 1, !.seen = @ \o batch]
EndVerdict(sizes, n, p) ==
  IF p.at # BatchCount(sizes, n) THEN "fewer batches than the length says"
  ELSE IF Len(p.seen) # n THEN "items were left out" ELSE "ok"
=============================================================================
