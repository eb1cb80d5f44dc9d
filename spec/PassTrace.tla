------------------------------ MODULE PassTrace ------------------------------
(***************************************************************************)
(* The pass machine and its conformance run.                               *)
(*                                                                         *)
(* State of one model: parameters P, gradient store G, batches in flight B *)
(* (input and output of every forward pass made so far).  Actions: a       *)
(* forward pass, a prediction, the backward callback of some batch (any    *)
(* order, any interleaving), and an update.  A recorded case is an         *)
(* expression, its parameters and the steps executed on the real model     *)
(* with everything observed; Exec either accepts a step or names the       *)
(* clause that fails.                                                      *)
(***************************************************************************)
EXTENDS Layers, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES c, i, st, v
vars == <<c, i, st, v>>

\* observed gradients (list of [id, nm, v]) as a store
GradFun(gs) == [k \in {<<gs[j].id, gs[j].nm>> : j \in 1..Len(gs)} |->
                  gs[CHOOSE j \in 1..Len(gs) : <<gs[j].id, gs[j].nm>> = k].v]

RECURSIVE Flatten(_, _)
\* flatten a nested sequence of integers of the given depth
Flatten(x, d) == IF d = 1 THEN x ELSE Flat([j \in 1..Len(x) |-> Flatten(x[j], d - 1)])
RECURSIVE SizeOf(_, _)
SizeOf(x, d) == IF d = 1 THEN Len(x) ELSE Sum([j \in 1..Len(x) |-> SizeOf(x[j], d - 1)])
RECURSIVE Step(_, _, _, _)
\* x - lr * g, where g is flattened
Step(x, d, g, lr) ==
  IF d = 1 THEN [j \in 1..Len(x) |-> x[j] - lr * g[j]]
  ELSE [j \in 1..Len(x) |->
          LET off == Sum([q \in 1..(j - 1) |-> SizeOf(x[q], d - 1)])
          IN Step(x[j], d - 1, SubSeq(g, off + 1, off + SizeOf(x[j], d - 1)), lr)]
\* nesting depth of a parameter of a node of kind k
Depth(k, nm) == CASE k = "maxout" -> IF nm = "W" THEN 3 ELSE 2
                  [] OTHER -> IF nm = "b" THEN 1 ELSE 2
UpdateNode(p, id, G0, lr) ==
  [nm \in DOMAIN p |->
     IF nm # "kind" /\ <<id, nm>> \in DOMAIN G0
     THEN Step(p[nm], Depth(p.kind, nm), G0[<<id, nm>>], lr) ELSE p[nm]]
Update(P, G0, lr) == [id \in 1..Len(P) |-> UpdateNode(P[id], id, G0, lr)]
ZeroGrads(G0) == [k \in DOMAIN G0 |-> Zeros(Len(G0[k]))]

OK(s) == [st |-> s, v |-> "ok"]
Bad(s, why) == [st |-> s, v |-> why]
SetOf(sq) == {sq[j] : j \in 1..Len(sq)}

Exec(e, s, x) ==
  CASE x.a = "fwd" ->
         LET y == Fwd(e, s.P, x.x) IN
         IF x.dirty # <<>> THEN Bad(s, "forward pass modified " \o x.dirty[1])
         ELSE IF ~Same(x.y, y) THEN Bad(s, "forward result")
         ELSE IF GradFun(x.g) # s.G THEN Bad(s, "forward pass changed gradients")
         ELSE OK([s EXCEPT !.B = Append(@, [x |-> x.x])])
    [] x.a = "pred" ->
         LET y == Fwd(e, s.P, x.x) IN
         IF x.dirty # <<>> THEN Bad(s, "prediction modified " \o x.dirty[1])
         ELSE IF ~Same(x.y, y) THEN Bad(s, "prediction result")
         ELSE IF GradFun(x.g) # s.G THEN Bad(s, "prediction changed gradients")
         ELSE OK(s)
    [] x.a = "bwd" ->
         LET b == Bwd(e, s.P, s.B[x.b].x, x.dy)
             G1 == GAdd(s.G, b.g)
             obs == GradFun(x.g)
         IN
         IF x.dirty # <<>> THEN Bad(s, "backward pass modified " \o x.dirty[1])
         ELSE IF ~x.nodx /\ ~Same(x.dx, b.dx) THEN Bad(s, "gradient of the input")
         ELSE IF DOMAIN obs # DOMAIN G1 THEN Bad(s, "set of parameters with a gradient")
         ELSE IF obs # G1 THEN Bad(s, "gradient of a parameter")
         ELSE OK([s EXCEPT !.G = G1])
    [] x.a = "inc" ->   \* a manual gradient contribution
         LET G1 == GAdd(s.G, <<[id |-> x.id, nm |-> x.nm, v |-> x.v]>>) IN
         IF x.dirty # <<>> THEN Bad(s, "gradient increment modified " \o x.dirty[1])
         ELSE IF GradFun(x.g) # G1 THEN Bad(s, "manual gradient increment") ELSE OK([s EXCEPT !.G = G1])
    [] x.a = "setg" ->  \* a gradient is overwritten
         LET G1 == (<<x.id, x.nm>> :> x.v) @@ s.G IN
         IF GradFun(x.g) # G1 THEN Bad(s, "manual gradient assignment") ELSE OK([s EXCEPT !.G = G1])
    [] x.a = "upd" ->
         LET P1 == Update(s.P, s.G, x.lr)
             calls == SetOf(x.calls)
         IN
         IF Len(x.calls) # Cardinality(calls) THEN Bad(s, "optimizer called twice for a parameter")
         ELSE IF calls # DOMAIN s.G THEN Bad(s, "optimizer not called for exactly the parameters with a gradient")
         ELSE IF x.p # P1 THEN Bad(s, "parameters after update")
         ELSE IF GradFun(x.g) # ZeroGrads(s.G) THEN Bad(s, "gradients after update")
         ELSE OK([P |-> P1, G |-> ZeroGrads(s.G), B |-> <<>>])
    [] x.a = "exc" -> Bad(s, "unexpected exception in " \o x.in \o ": " \o x.e)

CInit == /\ c \in 1..Len(Cases)
         /\ i = 0
         /\ st = [P |-> Cases[c].p, G |-> NoGrads, B |-> <<>>]
         /\ v = "ok"
CNext == /\ v = "ok"
         /\ i < Len(Cases[c].steps)
         /\ LET r == Eager(Exec(Cases[c].e, st, Cases[c].steps[i + 1])) IN
              /\ st' = r.st
              /\ v' = r.v
              /\ IF r.v # "ok"
                 THEN PrintT("@@BAD " \o ToJson([case |-> c, step |-> i + 1, clause |-> r.v]))
                 ELSE TRUE
         /\ i' = i + 1
         /\ c' = c
CSpec == CInit /\ [][CNext]_vars
View == <<c, i, v>>
\* every case was carried through to its last step or to its failing step
Final == TLCGet("distinct") >= 0 /\ PrintT("@@DONE " \o ToString(Len(Cases)))
=============================================================================
