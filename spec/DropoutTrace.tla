---------------------------- MODULE DropoutTrace ----------------------------
(* Recorded histories of models with dropout against Dropout. *)
EXTENDS Dropout, Json, IOUtils
VARIABLES c, i, st, v
Cases == JsonDeserialize(IOEnv.CASES)
\* passes: mask of each training pass (col: its number of columns when they share factors)
Start(cs) == [nodes |-> cs.nodes, passes |-> <<>>]
Elems(s) == {s[j] : j \in 1..Len(s)}
Exec(cs, s, x) ==
  LET ok == [st |-> s, v |-> "ok"]
      bad(why) == [st |-> s, v |-> why \o " (" \o x.op \o ", " \o cs.how \o ")"]
      to(n) == [st |-> n, v |-> "ok"]
      seen(nodes) == [j \in 1..Len(nodes) |-> [name |-> nodes[j].name, rate |-> nodes[j].rate, on |-> nodes[j].on]]
  IN
  IF x.exc # "" THEN bad("raised " \o x.exc)
  ELSE IF x.dirty # <<>> THEN bad("modified " \o x.dirty[1])
  ELSE CASE x.op = "rate" ->
         LET n == SetRate(s.nodes, Elems(x.names), x.rate) IN
         IF x.seen # seen(n) THEN bad("rates of the nodes") ELSE to([s EXCEPT !.nodes = n])
    [] x.op = "enable" -> to([s EXCEPT !.nodes = Enable(s.nodes, x.n, x.on)])
    [] x.op = "forward" ->
         LET F == Factors(cs.e, s.nodes, x.train)
             m == MaskOf(F, x.x, x.y, cs.col)
         IN IF Len(x.y) # Len(x.x) \/ x.meta # x.ymeta THEN bad("container of the result")
            ELSE IF \E j \in 1..Len(m) : m[j] = -1 THEN bad("result")
            ELSE to([s EXCEPT !.passes = Append(s.passes, m)])
    [] x.op = "backward" ->
         LET m == s.passes[x.j] IN
         IF Len(x.y) # Len(x.x) \/ x.meta # x.ymeta THEN bad("container of the gradient")
         ELSE IF ~CloseTo(Scale(x.x, Spread(m, Len(x.x), cs.col)), x.y) THEN bad("gradient") ELSE ok
    [] x.op = "drawn" ->
         LET F == Factors(cs.e, s.nodes, TRUE)  r == s.nodes[1].rate IN
         IF \E j \in 1..Len(x.kinds) : \A f \in F : FAbs(x.kinds[j] - f) > Slack(f) THEN bad("result")
         ELSE IF ~Plausible(x.n, x.first, r) \/ ~Plausible(x.n, x.second, r) THEN bad("share of dropped cells")
         ELSE IF ~Plausible(x.n, x.both, FMul(r, r)) THEN bad("masks that depend on each other") ELSE ok
INSTANCE TraceMachine
=============================================================================
