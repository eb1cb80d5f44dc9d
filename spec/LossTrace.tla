----------------------------- MODULE LossTrace -----------------------------
(* Recorded losses against Loss. *)
EXTENDS Loss, Json, IOUtils
VARIABLES c, i, st, v
Cases == JsonDeserialize(IOEnv.CASES)
Start(cs) == 0
Tight(a, b) == FAbs(a - b) <= 5
TightRows(A, B) == Len(A) = Len(B) /\ \A q \in 1..Len(A) : Len(A[q]) = Len(B[q]) /\ \A j \in 1..Len(A[q]) : Tight(A[q][j], B[q][j])
Exec(cs, s, x) ==
  LET ok == [st |-> s, v |-> "ok"]
      bad(why) == [st |-> s, v |-> why \o " (" \o x.op \o ", " \o x.how \o ")"]
      must(p, why) == IF p THEN ok ELSE bad(why)
      fine == IF x.exc # "" THEN bad("raised " \o x.exc) ELSE IF x.dirty # <<>> THEN bad("modified " \o x.dirty[1]) ELSE ok
      loss(l) == \A q \in 1..Len(x.loss) : Near(x.loss[q], l, 40)
  IN
  CASE x.op = "crossentropy" /\ Refused(x.o, x.G, x.T) -> must(x.exc = "ValueError", "accepted")
    [] fine.v # "ok" -> fine
    [] x.op = "crossentropy" ->
         LET D == Grad(x.o, x.G, x.T) IN
         IF ~(\A q \in 1..Len(x.out) : TightRows(x.out[q], D)) THEN bad("gradient") ELSE must(loss(Squares(D)), "loss")
    [] x.op = "sequences" ->
         LET D == SeqGrad(x.o, x.G, x.T) IN
         IF ~(\A q \in 1..Len(x.out) : Len(x.out[q]) = Len(D) /\ \A b \in 1..Len(D) : TightRows(x.out[q][b], D[b])) THEN bad("gradient")
         ELSE must(loss(FSum([b \in 1..Len(D) |-> Squares(D[b])])), "loss")
    [] x.op = "l2" ->
         LET D == L2Grad(x.G, x.T, x.o.norm) IN
         IF ~(\A q \in 1..Len(x.out) : RowsNear(x.out[q], D, 5)) THEN bad("gradient") ELSE must(loss(Squares(D)), "loss")
    [] x.op = "cosine" ->
         IF ~(\A q \in 1..Len(x.out) : RowsNear(x.out[q], CosGrad(x.G, x.T, x.o.norm, x.o.zeros), 60)) THEN bad("gradient")
         ELSE must(loss(CosLoss(x.G, x.T, x.o.norm, x.o.zeros)), "loss")
    [] x.op = "categorical" -> must(TightRows(x.out[1], [q \in 1..Len(x.T) |-> Smooth(x.T[q] + 1, x.o.n, x.o.smooth)]), "distribution")
INSTANCE TraceMachine
=============================================================================
