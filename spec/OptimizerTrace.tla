--------------------------- MODULE OptimizerTrace ---------------------------
(* Recorded optimizer calls against Optimizer. *)
EXTENDS Optimizer, Json, IOUtils
VARIABLES c, i, st, v
Cases == JsonDeserialize(IOEnv.CASES)
\* step of the optimizer, state of every key
Start(cs) == [step |-> 0, ks |-> [k \in 1..Len(cs.sizes) |-> Fresh(cs.sizes[k])], seen |-> [k \in 1..Len(cs.sizes) |-> FALSE]]
At(t, s) == t[IF s + 1 <= Len(t) THEN s + 1 ELSE Len(t)]
Hyper(cs, s) == [algo |-> cs.algo, decay |-> cs.decay, avg |-> cs.avg,
                 lr |-> At(cs.lr, s), b1 |-> At(cs.b1, s), b2 |-> At(cs.b2, s),
                 eps |-> At(cs.eps, s), l2 |-> At(cs.l2, s), clip |-> At(cs.clip, s)]
Tol == 100
Zero(g) == \A j \in 1..Len(g) : g[j] = 0
Exec(cs, s, x) ==
  LET ok(q) == [st |-> q, v |-> "ok"]
      bad(why) == [st |-> s, v |-> why \o " (" \o cs.algo \o ")"]
  IN
  CASE x.op = "advance" -> ok([s EXCEPT !.step = @ + 1])
    [] x.op = "empty" -> (IF x.exc # "" THEN bad("an empty gradient raised " \o x.exc)
                          ELSE IF x.out # x.w THEN bad("an empty gradient changed the weights") ELSE ok(s))
    [] x.op = "kernel" ->
         (LET h == [b1 |-> x.b1, b2 |-> x.b2]
              m1 == Same(NextM1(h, x.m1, x.g))
              m2 == Same(NextM2(h, x.m2, x.g))
              w == [j \in 1..Len(x.w) |-> x.w[j] - FMul(x.lr, FDiv(m1[j], FSqrt(m2[j]) + x.eps))]
          IN IF x.exc # "" THEN bad("adam raised " \o x.exc \o " with " \o x.via)
             ELSE IF ~RowNear(x.outm1, m1, Tol) \/ ~RowNear(x.outm2, m2, Tol) THEN bad("moments of adam with " \o x.via)
             ELSE IF ~RowNear(x.out, w, Tol) THEN bad("weights of adam with " \o x.via) ELSE ok(s))
    [] x.op = "update" ->
         (LET r == Update(Hyper(cs, s.step), s.ks[x.key], x.w, x.g, x.scale)
              ks == [s.ks EXCEPT ![x.key] = r.ks]
              seen == [s.seen EXCEPT ![x.key] = TRUE]
          IN IF x.exc # "" THEN bad("an update raised " \o x.exc)
             ELSE IF x.step # s.step THEN bad("an update changed the step")
             ELSE IF x.shape = FALSE THEN bad("shape of the results")
             ELSE IF ~RowNear(x.out, r.w, Tol) THEN bad("weights")
             ELSE IF ~Zero(x.gout) \/ Len(x.gout) # Len(x.g) THEN bad("the gradient was not cleared")
             ELSE IF cs.avg /\ \E k \in 1..Len(ks) : (x.emas[k] # <<>>) # seen[k] THEN bad("which averages there are")
             ELSE IF cs.avg /\ \E k \in 1..Len(ks) : seen[k] /\ ~RowNear(x.emas[k], ks[k].ema, Tol) THEN bad("averages")
             ELSE IF ~cs.avg /\ x.emas # <<>> THEN bad("averages that are off")
             \* go on from what was observed, so that rounding does not add up
             ELSE ok([s EXCEPT !.ks = [ks EXCEPT ![x.key].ema = IF cs.avg THEN x.emas[x.key] ELSE @], !.seen = seen]))
INSTANCE TraceMachine
=============================================================================
