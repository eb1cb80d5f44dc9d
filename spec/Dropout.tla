------------------------------ MODULE Dropout ------------------------------
(***************************************************************************)
(* Dropout (C17), in fixed point.                                          *)
(*                                                                         *)
(* A model is an expression over numbered nodes:                           *)
(*   [k |-> "drop", n |-> node]   a dropout node                           *)
(*   [k |-> "seq", s |-> exprs]   one after the other                      *)
(*   [k |-> "res", s |-> <<e>>]   input plus the result of e               *)
(*   [k |-> "id"]                 anything without dropout                 *)
(* A node has at most one rate, stored under a name, and may be disabled.  *)
(* A pass scales every cell of the result without dropout by one of a      *)
(* handful of factors, and its backward pass scales the gradient of the    *)
(* same cell by the same factor, whatever happened in between.             *)
(***************************************************************************)
EXTENDS Fixed, FiniteSets

Active(nd) == nd.on /\ nd.rate > 0
\* factors a node may apply
NodeFactors(nd, train) ==
  IF ~train \/ ~Active(nd) THEN {S}
  ELSE IF nd.rate >= S THEN {0}
  ELSE {0, FDiv(S, S - nd.rate)}
RECURSIVE Factors(_, _, _)
RECURSIVE SeqFactors(_, _, _, _)
Factors(e, nodes, train) ==
  CASE e.k = "id" -> {S}
    [] e.k = "drop" -> NodeFactors(nodes[e.n], train)
    [] e.k = "seq" -> SeqFactors(e.s, Len(e.s), nodes, train)
    [] e.k = "res" -> {S + f : f \in Factors(e.s[1], nodes, train)}
SeqFactors(es, j, nodes, train) ==
  IF j = 0 THEN {S} ELSE {FMul(f, g) : f \in SeqFactors(es, j - 1, nodes, train), g \in Factors(es[j], nodes, train)}

\* rates are set under the given names, on the nodes that have a rate under such a name
SetRate(nodes, names, r) == [j \in 1..Len(nodes) |-> IF nodes[j].name \in names THEN [nodes[j] EXCEPT !.rate = r] ELSE nodes[j]]
Enable(nodes, n, on) == [nodes EXCEPT ![n].on = on]

Scale(xs, fs) == [j \in 1..Len(xs) |-> FMul(xs[j], fs[j])]
\* the factor of F that explains result y of x, -1 if there is none
Slack(x) == 8 + FAbs(x) \div 4096
Explains(f, x, y) == FAbs(FMul(x, f) - y) <= Slack(FMul(x, f))
FactorOf(F, x, y) == IF \E f \in F : Explains(f, x, y) THEN CHOOSE f \in F : Explains(f, x, y) ELSE -1
\* of every cell; cells of a column share theirs when col is not 0
MaskOf(F, xs, ys, col) ==
  IF col = 0 THEN [j \in 1..Len(xs) |-> FactorOf(F, xs[j], ys[j])]
  ELSE LET cells(q) == {j \in 1..Len(xs) : (j - 1) % col = q - 1}
           f(q) == IF \E g \in F : \A j \in cells(q) : Explains(g, xs[j], ys[j]) THEN CHOOSE g \in F : \A j \in cells(q) : Explains(g, xs[j], ys[j]) ELSE -1
       IN [q \in 1..col |-> f(q)]
Spread(m, n, col) == IF col = 0 THEN m ELSE [j \in 1..n |-> m[((j - 1) % col) + 1]]
CloseTo(xs, ys) == Len(xs) = Len(ys) /\ \A j \in 1..Len(xs) : FAbs(xs[j] - ys[j]) <= Slack(xs[j])
\* of n independent cells, k may be dropped at this rate (eight standard deviations)
Plausible(n, k, p) == FAbs(k * 256 - (n * p) \div 256) <= 4 * 256 * (FSqrt(n * 64) \div 2048 + 1)
=============================================================================
