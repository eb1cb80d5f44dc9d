-------------------------- MODULE ActivationTrace --------------------------
(* Recorded calls of activation operations against Activation. *)
EXTENDS Activation, Json, IOUtils
VARIABLES c, i, st, v
Cases == JsonDeserialize(IOEnv.CASES)
Start(cs) == 0
Tol == 100
Exact == {"relu", "relu_k", "hard_tanh", "clipped_linear"}
Is(a, o, want) == IF a.f \in Exact THEN o = want ELSE Near(o, want, Tol)
Exec(cs, s, x) ==
  LET ok == [st |-> s, v |-> "ok"]
      bad(why) == [st |-> s, v |-> why \o " (" \o x.op \o " " \o x.a.f \o ", " \o x.how \o ")"]
  IN
  IF x.exc # "" THEN bad("raised " \o x.exc)
  ELSE IF x.op # "maxout" /\ x.op # "backprop maxout" /\ Len(x.out) # Len(x.x) THEN bad("shape of the result")
  ELSE IF ~x.place THEN bad("where the result is")
  ELSE IF x.dirty # <<>> THEN bad("modified " \o x.dirty[1])
  ELSE IF ~x.dtype THEN bad("type of the result")
  ELSE CASE x.op = "forward" -> (IF \A j \in 1..Len(x.x) : Is(x.a, x.out[j], Act(x.a, x.x[j])) THEN ok ELSE bad("value"))
         [] x.op = "backward" ->
              (IF \A j \in 1..Len(x.x) : \E d \in DAct(x.a, x.x[j]) : Is(x.a, x.out[j], FMul(x.dy[j], d)) THEN ok ELSE bad("derivative"))
         \* from the output alone: of sigmoid and tanh
         [] x.op = "from output" ->
              (IF \A j \in 1..Len(x.x) : LET y == x.x[j] IN
                    Near(x.out[j], FMul(x.dy[j], IF x.a.f = "sigmoid" THEN FMul(y, S - y) ELSE S - FMul(y, y)), Tol)
               THEN ok ELSE bad("derivative"))
         \* rows (along the softmax axis) of the input and of the output
         [] x.op = "softmax" -> (IF \A j \in 1..Len(x.x) : RowNear(x.out[j], SoftmaxRow(x.x[j], x.temp), Tol) THEN ok ELSE bad("value"))
         [] x.op = "backprop softmax" -> (IF \A j \in 1..Len(x.x) : RowNear(x.out[j], BackSoftmaxRow(x.x[j], x.dy[j], x.temp), Tol) THEN ok ELSE bad("derivative"))
         \* pieces of one unit each
         [] x.op = "maxout" -> (IF Len(x.out) = Len(x.x) /\ Len(x.which) = Len(x.x) /\
                                   \A j \in 1..Len(x.x) : /\ x.out[j] = Top(x.x[j])
                                                          /\ x.which[j] + 1 \in 1..Len(x.x[j])
                                                          /\ x.x[j][x.which[j] + 1] = Top(x.x[j])
                                                          /\ \A q \in 1..x.which[j] : x.x[j][q] # Top(x.x[j])
                                THEN ok ELSE bad("value"))
         [] x.op = "backprop maxout" -> (IF Len(x.out) = Len(x.dy) /\
                                   \A j \in 1..Len(x.dy) : x.out[j] = [q \in 1..x.pieces |-> IF q = x.which[j] + 1 THEN x.dy[j] ELSE 0]
                                THEN ok ELSE bad("derivative"))
INSTANCE TraceMachine
=============================================================================
