----------------------------- MODULE SmoothTrace -----------------------------
(* Recorded passes of programs of layers against Smooth. *)
EXTENDS Smooth, Json, IOUtils
VARIABLES c, i, st, v
Cases == JsonDeserialize(IOEnv.CASES)
\* the gradients accumulated so far; known: whether all of them could be judged
Start(cs) == [known |-> TRUE, g |-> cs.zero]
Tol == 150
Exec(cs, s, x) ==
  LET ok(n) == [st |-> n, v |-> "ok"]
      bad(why) == [st |-> s, v |-> why \o " (" \o cs.how \o ")"]
      start == IF x.fresh THEN Start(cs) ELSE s
  IN
  IF x.op = "refuse" THEN IF x.exc # "" THEN ok(s) ELSE bad(x.why)
  ELSE IF x.exc # "" THEN bad("raised " \o x.exc)
  ELSE IF x.dirty # <<>> THEN bad("modified " \o x.dirty[1])
  ELSE
    LET xs == Eager(Through(cs.P, x.X, x.lens, x.op = "train"))
        \* layer normalization of nearly constant rows, kinks in the middle
        steady == AllSteady(cs.P, xs, Len(cs.P))
        constant(row) == \A j \in Idx(row) : row[j] = row[1]
        normal == \A k \in Idx(cs.P) : cs.P[k].k = "layernorm" =>
                    (Steady(cs.P[k], xs[k]) \/ (k = 1 /\ \A r \in Idx(x.X) : constant(x.X[r]) \/ NVar(x.X[r]) >= 3277))
    IN
    IF ~normal THEN ok(IF x.op = "train" THEN [start EXCEPT !.known = FALSE] ELSE start)
    ELSE IF ~RowsNear(x.Y, xs[Len(xs)], Tol) THEN bad("result at " \o x.op)
    ELSE IF x.op # "train" THEN ok(start)
    ELSE IF ~steady THEN ok([start EXCEPT !.known = FALSE])
    ELSE LET b == Eager(BackThrough(cs.P, xs, x.lens, x.dY, Len(cs.P)))
             total == SumLike(start.g, b.g)
         IN IF ~RowsNear(x.dX, b.dx, Tol) THEN bad("gradient of the input")
            ELSE IF start.known /\ ~NearLike(x.G, total, Tol) THEN bad("gradient of the parameters")
            ELSE ok([start EXCEPT !.g = total])
INSTANCE TraceMachine
=============================================================================
