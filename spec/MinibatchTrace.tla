--------------------------- MODULE MinibatchTrace ---------------------------
(* Recorded minibatch iterators, passes interleaved at will, against Minibatch. *)
EXTENDS Minibatch, Json, IOUtils
VARIABLES c, i, st, v
Cases == JsonDeserialize(IOEnv.CASES)
Start(cs) == <<>>
\* requested sizes in 256ths: a schedule may give fractions, which are cut off
Whole(s) == [j \in 1..Len(s) |-> s[j] \div 256]
Exec(cs, s, x) ==
  LET ok(q) == [st |-> q, v |-> "ok"]
      bad(why) == [st |-> s, v |-> why \o " (" \o cs.how \o ")"]
      sizes == Whole(cs.sizes)
  IN
  CASE x.op = "create" ->
         (IF x.exc # "" THEN bad("creation raised " \o x.exc)
          ELSE IF x.len # BatchCount(sizes, cs.n) THEN bad("reported length")
          ELSE ok(s))
    [] x.op = "begin" -> ok(Append(s, NewPass))
    [] x.op = "yield" ->
         (LET why == YieldVerdict(sizes, cs.n, cs.shuffled, s[x.p], x.batch) IN
          IF why # "ok" THEN bad(why)
          ELSE IF \E j \in 1..Len(x.others) : x.others[j] # x.batch THEN bad("parallel sequences are not aligned")
          ELSE IF x.kinds # cs.kinds THEN bad("type of a batch")
          ELSE ok([s EXCEPT ![x.p] = Yielded(@, x.batch)]))
    [] x.op = "end" ->
         (IF x.exc # "" THEN bad("a pass raised " \o x.exc)
          ELSE LET why == EndVerdict(sizes, cs.n, s[x.p]) IN
               IF why # "ok" THEN bad(why) ELSE ok([s EXCEPT ![x.p].over = TRUE]))
    [] x.op = "input" -> (IF x.same THEN ok(s) ELSE bad("the input was modified"))
INSTANCE TraceMachine
=============================================================================
