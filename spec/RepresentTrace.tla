--------------------------- MODULE RepresentTrace ---------------------------
(* Recorded passes of wrapped layers against Represent. *)
EXTENDS Represent, Json, IOUtils
VARIABLES c, i, st, v
Cases == JsonDeserialize(IOEnv.CASES)
\* sequences of each training pass, and the gradients added up
Start(cs) == [xs |-> <<>>, g |-> ZeroGrad(cs.P)]
Exec(cs, s, x) ==
  LET bad(why) == [st |-> s, v |-> why \o " (" \o cs.how \o ", " \o x.kind \o ")"]
      to(n) == [st |-> Eager(n), v |-> "ok"]
      fed(seqs) == x.seen.t = "none" \/ (Described(x.seen) /\ SameBag(Seqs(x.seen), seqs))
  IN
  IF x.exc # "" THEN bad("raised " \o x.exc)
  ELSE IF x.dirty # <<>> THEN bad("modified " \o x.dirty[1])
  ELSE IF x.op = "pass" THEN
    LET seqs == Seqs(x.X)  ys == Images(cs.gs, cs.P, seqs) IN
    IF x.ykind # x.kind THEN bad("representation of the result: " \o x.ykind)
    ELSE IF ~Described(x.Y) THEN bad("description of the result")
    ELSE IF Seqs(x.Y) # ys THEN bad("result")
    ELSE IF ~fed(seqs) THEN bad("what the inner layer is given")
    ELSE IF x.rest # x.wantrest THEN bad("what is passed by")
    ELSE to(IF x.train THEN [s EXCEPT !.xs = Append(@, seqs)] ELSE s)
  ELSE
    LET seqs == s.xs[x.j]  ds == Seqs(x.dY)
        bs == Eager(Pulls(cs.gs, cs.P, seqs, ds))
        g == GradAdd(s.g, Together(cs.P, bs, Len(bs)))
    IN IF x.ykind # x.kind THEN bad("representation of the gradient: " \o x.ykind)
       ELSE IF ~Described(x.dX) THEN bad("description of the gradient")
       ELSE IF Seqs(x.dX) # [q \in 1..Len(bs) |-> bs[q].x] THEN bad("gradient")
       ELSE IF x.G # g THEN bad("gradients of the parameters")
       ELSE IF x.rest # x.wantrest THEN bad("what is passed by")
       ELSE to([s EXCEPT !.g = g])
INSTANCE TraceMachine
=============================================================================
