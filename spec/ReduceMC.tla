------------------------------ MODULE ReduceMC ------------------------------
(***************************************************************************)
(* Design run of Reduce: for every batch of small sequences, each          *)
(* reduction and window treats the sequences independently, and its        *)
(* backward pass is the transpose of its forward pass (checked on every    *)
(* pair of basis vectors, which settles the linear ones completely; the    *)
(* maximum is checked on every assignment of small values).                *)
(***************************************************************************)
EXTENDS Reduce
CONSTANTS MaxSeqs, MaxSeqLen, MaxVal
VARIABLES lens, op, x, k
vars == <<lens, op, x, k>>
Basis(n, m) == [j \in 1..n |-> <<IF j = m THEN 60 ELSE 0>>]
Init == \E n \in 0..MaxSeqs :
          /\ op \in Reductions \cup {"window"}
          /\ lens \in [1..n -> (IF op \in {"sum", "mean", "window"} THEN 0 ELSE 1)..MaxSeqLen]
          /\ k \in 1..(IF op = "window" THEN 3 ELSE 1)
          /\ x = <<>>
Inputs == IF op = "max" THEN [1..Sum(lens) -> {<<v>> : v \in 0..MaxVal}] ELSE {Basis(Sum(lens), m) : m \in 0..Sum(lens)}
Next == /\ x = <<>>
        /\ \E y \in Inputs : x' = Eager(y)
        /\ UNCHANGED <<lens, op, k>>
Spec == Init /\ [][Next]_vars
Fwd == IF op = "window" THEN Windows(x, lens, k, 1) ELSE Reduced(op, x, lens, 1)
Bwd(dY) == IF op = "window" THEN BackWindows(dY, lens, k, 1) ELSE BackReduced(op, x, lens, dY, 1)
In(X, Y) == Sum([j \in 1..Len(X) |-> Dot(X[j], Y[j])])
OutLen == IF op = "window" THEN Sum(lens) ELSE Len(lens)
OutW == IF op = "window" THEN 2 * k + 1 ELSE 1
Adjoint == Len(x) = Sum(lens) => \A o \in 1..OutLen : \A j \in 1..OutW :
  LET dY == [q \in 1..OutLen |-> [e \in 1..OutW |-> IF q = o /\ e = j THEN 60 ELSE 0]] IN In(Fwd, dY) = In(x, Bwd(dY))
\* each sequence on its own
Local == Len(x) = Sum(lens) => LET q == Split(x, lens) IN
  Fwd = Flat([b \in 1..Len(lens) |-> IF op = "window" THEN Windows(q[b], <<lens[b]>>, k, 1) ELSE Reduced(op, q[b], <<lens[b]>>, 1)])
=============================================================================
