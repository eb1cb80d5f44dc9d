--------------------------- MODULE SchedulesTrace ---------------------------
(* Recorded queries of schedules, generators and optimizer attributes against Schedules. *)
EXTENDS Schedules, Json, IOUtils
VARIABLES c, i, st, v
Cases == JsonDeserialize(IOEnv.CASES)
\* states of the nodes, the generators made from the schedule, the step of the optimizer
Start(cs) == [nodes |-> InitState(cs.chain), gens |-> <<>>, step |-> 0, score |-> <<>>]
Tol == 40
Exec(cs, s, x) ==
  LET ok(q) == [st |-> q, v |-> "ok"]
      bad(why) == [st |-> s, v |-> why \o " (" \o cs.name \o ")"]
      answer(step, score, rest) ==
        LET r == Query(cs.chain, s.nodes, 1, step, score) IN
        IF ~r.ok THEN (IF x.exc = "ValueError" THEN ok([rest EXCEPT !.nodes = r.st]) ELSE bad("an invalid query was answered"))
        ELSE IF x.exc # "" THEN bad("a query raised " \o x.exc)
        ELSE IF ~Near(x.out, r.v, Tol) THEN bad("value")
        ELSE ok([rest EXCEPT !.nodes = r.st])
  IN
  CASE x.op = "call" -> answer(x.step, x.score, s)
    [] x.op = "negative" -> (IF x.exc = "ValueError" THEN ok(s) ELSE bad("a negative step was accepted"))
    [] x.op = "generate" -> ok([s EXCEPT !.gens = Append(@, [at |-> x.start, by |-> x.by, score |-> x.score])])
    [] x.op = "next" -> (LET g == s.gens[x.g] IN answer(g.at, g.score, [s EXCEPT !.gens[x.g].at = @ + g.by]))
    [] x.op = "step" -> ok([s EXCEPT !.step = @ + 1])
    [] x.op = "score" -> ok([s EXCEPT !.score = <<s.step, x.value>>])
    \* the attribute of an optimizer, queried the way its update does
    [] x.op = "attr" -> (IF x.step # s.step THEN bad("step of the optimizer")
                         ELSE IF x.score # s.score THEN bad("last score of the optimizer")
                         ELSE answer(s.step, s.score, s))
INSTANCE TraceMachine
=============================================================================
