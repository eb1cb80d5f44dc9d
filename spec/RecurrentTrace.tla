--------------------------- MODULE RecurrentTrace ---------------------------
(* Recorded passes of recurrent layers over batches against Recurrent. *)
EXTENDS Recurrent, Json, IOUtils
VARIABLES c, i, st, v
Cases == JsonDeserialize(IOEnv.CASES)
\* the gradients accumulated by the callbacks so far
Start(cs) == ZeroStack(cs.P)
Masked(g, m) == [q \in 1..Len(g) |-> [d \in 1..Len(g[q]) |->
  [x |-> [k \in Gates |-> [o \in 1..Len(g[q][d].x[k]) |-> [j \in 1..Len(g[q][d].x[k][o]) |-> FMul(g[q][d].x[k][o][j], m[q][d].x[k][o][j])]]],
   h |-> [k \in Gates |-> [o \in 1..Len(g[q][d].h[k]) |-> [j \in 1..Len(g[q][d].h[k][o]) |-> FMul(g[q][d].h[k][o][j], m[q][d].h[k][o][j])]]],
   b |-> [k \in Gates |-> [o \in 1..Len(g[q][d].b[k]) |-> FMul(g[q][d].b[k][o], m[q][d].b[k][o])]]]]]
SameRows(X, Y) == RowsNear(X, Y, 80)
SameGrad(a, b) == \A q \in 1..Len(a) : \A d \in 1..Len(a[q]) :
   /\ \A k \in Gates : SameRows(a[q][d].x[k], b[q][d].x[k]) /\ SameRows(a[q][d].h[k], b[q][d].h[k]) /\ RowNear(a[q][d].b[k], b[q][d].b[k], 80)
Prefix(rows, n) == SubSeq(rows, 1, n)
\* what is wrong with a pass, as a pass over the batch X with gradients D; and the gradients accumulated then
Judged(cs, s, x, P, X, D) ==
  LET ok(n) == [st |-> n, v |-> "ok"]
      bad(why) == [st |-> s, v |-> why]
  IN
  IF Len(x.Y) # Len(X) \/ \E b \in 1..Len(X) : ~SameRows(x.Y[b], Prefix(Output(P, X[b]), Len(x.X[b]))) THEN bad("result")
  ELSE IF ~x.train THEN ok(s)
  ELSE LET r == Eager([b \in 1..Len(X) |-> Backward(P, X[b], D[b])])
           g == StackSum(P, [b \in 1..Len(X) |-> r[b].g])
           total == Eager(StackAdd(s, IF x.drop # <<>> THEN Masked(g, x.drop) ELSE g))
       IN IF Len(x.dX) # Len(X) \/ \E b \in 1..Len(X) : ~SameRows(x.dX[b], Prefix(r[b].dx, Len(x.X[b]))) THEN bad("gradient")
          ELSE IF ~SameGrad(x.G, total) THEN bad("gradient of the parameters")
          ELSE ok(total)
RECURSIVE Longest(_)
Longest(X) == IF X = <<>> THEN 0 ELSE FMax(Len(Head(X)), Longest(Tail(X)))
PadTo(seq, n, w) == seq \o [j \in 1..(n - Len(seq)) |-> FZeros(w)]
Padded(X) == LET w == Len((CHOOSE q \in {X[b] : b \in 1..Len(X)} : q # <<>>)[1]) IN [b \in 1..Len(X) |-> PadTo(X[b], Longest(X), w)]
Exec(cs, s, x) ==
  LET bad(why) == [st |-> s, v |-> why \o " (" \o cs.how \o ", " \o x.form \o ")"]
      \* the weights used: with those that are dropped
      P == IF x.train /\ x.drop # <<>> THEN x.P ELSE cs.P
  IN
  IF x.exc # "" THEN bad("raised " \o x.exc)
  ELSE IF x.dirty # <<>> THEN bad("modified " \o x.dirty[1])
  ELSE LET j == Judged(cs, s, x, P, x.X, x.D) IN
    IF j.v = "ok" THEN j
    ELSE IF cs.how = "PyTorchLSTM bi" /\ Longest(x.X) > 0 /\ Judged(cs, s, x, P, Padded(x.X), IF x.train THEN Padded(x.D) ELSE <<>>).v = "ok"
    THEN [st |-> s, v |-> "PyTorchLSTM, bidirectional: reads padding"]
    ELSE bad(j.v)
INSTANCE TraceMachine
=============================================================================
