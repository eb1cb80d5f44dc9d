----------------------------- MODULE ReduceTrace -----------------------------
(* Recorded calls of the reductions, windows and their layers against Reduce. *)
EXTENDS Reduce, Json, IOUtils
VARIABLES c, i, st, v
Cases == JsonDeserialize(IOEnv.CASES)
Start(cs) == 0
Exec(cs, s, x) ==
  LET ok == [st |-> s, v |-> "ok"]
      bad(why) == [st |-> s, v |-> why \o " (" \o x.via \o " " \o x.op \o ")"]
  IN
  IF x.kind = "reject" THEN
    (IF x.exc \in {"ValueError", "IndexError", "AssertionError"} THEN ok ELSE bad("mismatching lengths or gradients were accepted"))
  ELSE IF x.dirty # <<>> THEN bad("a pass modified " \o x.dirty[1])
  ELSE IF ~ValidLens(x.op, x.n, Len(x.x)) THEN bad("harness: invalid case")
  ELSE IF x.exc # "" THEN bad("a pass raised " \o x.exc)
  ELSE IF x.op = "window" THEN
    (IF x.y # Windows(x.x, x.n, x.k, x.w) THEN bad("window features")
     ELSE IF x.dx # BackWindows(x.dy, x.n, x.k, x.w) THEN bad("gradient of window features")
     ELSE IF x.lens # x.n THEN bad("lengths of window features") ELSE ok)
  ELSE IF x.y # Reduced(x.op, x.x, x.n, x.w) THEN bad("result")
  ELSE IF x.dx # BackReduced(x.op, x.x, x.n, x.dy, x.w) THEN bad("gradient")
  ELSE IF x.lens # x.n THEN bad("lengths of the gradient")
  ELSE ok
INSTANCE TraceMachine
=============================================================================
