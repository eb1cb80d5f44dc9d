------------------------------- MODULE Reduce -------------------------------
(***************************************************************************)
(* Reductions and window features of batches of sequences (C10).  A batch  *)
(* is its rows and the lengths of its sequences.                           *)
(***************************************************************************)
EXTENDS Values

Reductions == {"sum", "mean", "max", "first", "last"}
\* lengths that describe a batch of T rows; empty sequences only where allowed
ValidLens(op, lens, T) ==
  /\ \A j \in 1..Len(lens) : lens[j] >= (IF op \in {"sum", "mean", "window"} THEN 0 ELSE 1)
  /\ Sum(lens) = T

\* one sequence (rows of width w) to one row
One(op, s, w) ==
  CASE op = "sum" -> ColSum(s, w)
    [] op = "mean" -> IF s = <<>> THEN Zeros(w) ELSE [j \in 1..w |-> ColSum(s, w)[j] \div Len(s)]
    [] op = "max" -> [j \in 1..w |-> SMax(Col(s, j))]
    [] op = "first" -> s[1]
    [] op = "last" -> s[Len(s)]
Reduced(op, rows, lens, w) == LET q == Split(rows, lens) IN [b \in 1..Len(lens) |-> One(op, q[b], w)]
\* row of the sequence that the maximum of column j comes from
MaxAt(s, j) == ArgMax(Col(s, j))
\* gradient of one sequence for the gradient dy of its row
BackOne(op, s, dy, w) ==
  CASE op = "sum" -> [t \in 1..Len(s) |-> dy]
    [] op = "mean" -> [t \in 1..Len(s) |-> [j \in 1..w |-> dy[j] \div Len(s)]]
    [] op = "max" -> [t \in 1..Len(s) |-> [j \in 1..w |-> IF MaxAt(s, j) = t THEN dy[j] ELSE 0]]
    [] op = "first" -> [t \in 1..Len(s) |-> IF t = 1 THEN dy ELSE Zeros(w)]
    [] op = "last" -> [t \in 1..Len(s) |-> IF t = Len(s) THEN dy ELSE Zeros(w)]
BackReduced(op, rows, lens, dY, w) ==
  LET q == Split(rows, lens) IN Flat([b \in 1..Len(lens) |-> BackOne(op, q[b], dY[b], w)])

\* a row with its k neighbours on either side, zeros beyond the ends of the sequence
RowOr0(s, t, w) == IF t >= 1 /\ t <= Len(s) THEN s[t] ELSE Zeros(w)
Window1(s, k, w) == [t \in 1..Len(s) |-> Flat([d \in 1..(2 * k + 1) |-> RowOr0(s, t + d - k - 1, w)])]
Windows(rows, lens, k, w) == LET q == Split(rows, lens) IN Flat([b \in 1..Len(lens) |-> Window1(q[b], k, w)])
\* its transpose: row t gets its own slot of every window it appears in
Back1(s, k, w) == [t \in 1..Len(s) |->
   [j \in 1..w |-> Sum([d \in 1..(2 * k + 1) |->
      LET u == t - (d - k - 1) IN IF u >= 1 /\ u <= Len(s) THEN s[u][(d - 1) * w + j] ELSE 0])]]
BackWindows(dY, lens, k, w) == LET q == Split(dY, lens) IN Flat([b \in 1..Len(lens) |-> Back1(q[b], k, w)])
=============================================================================
