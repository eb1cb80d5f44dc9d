------------------------------ MODULE Represent ------------------------------
(***************************************************************************)
(* Layers wrapped to accept several representations of a batch (C11).      *)
(*                                                                         *)
(* What an inner layer computes is a sequence of stages, each a function   *)
(* of one sequence (a list of rows):                                       *)
(*   aff   rows times W transposed, plus b      sq    squares of all cells *)
(*   cum   running sum over time                rev   last row first       *)
(*   tot   every row becomes the sum of rows    head  the first row only   *)
(*   twice every row is repeated                                           *)
(* Containers (of module Containers) hold the sequences.  However a batch  *)
(* is represented, the result holds F of every sequence, in the same kind  *)
(* of container, and the gradients are those of F.                         *)
(***************************************************************************)
EXTENDS Containers

Apply(g, P, s) ==
  CASE g = "aff" -> [t \in 1..Len(s) |-> [o \in 1..Len(P.W) |-> Dot(s[t], P.W[o]) + P.b[o]]]
    [] g = "sq" -> [t \in 1..Len(s) |-> [j \in 1..Len(s[t]) |-> s[t][j] * s[t][j]]]
    [] g = "cum" -> [t \in 1..Len(s) |-> ColSum(SubSeq(s, 1, t), Len(s[t]))]
    [] g = "rev" -> Reverse(s)
    [] g = "tot" -> [t \in 1..Len(s) |-> ColSum(s, Len(s[t]))]
    [] g = "head" -> SubSeq(s, 1, Min2(1, Len(s)))
    [] g = "twice" -> [t \in 1..(2 * Len(s)) |-> s[(t + 1) \div 2]]
\* gradient of the sequence, given the sequence s and the gradient d of the result
Pull(g, P, s, d) ==
  CASE g = "aff" -> [t \in 1..Len(s) |-> [j \in 1..Len(P.W[1]) |-> Sum([o \in 1..Len(P.W) |-> d[t][o] * P.W[o][j]])]]
    [] g = "sq" -> [t \in 1..Len(s) |-> [j \in 1..Len(s[t]) |-> 2 * s[t][j] * d[t][j]]]
    [] g = "cum" -> [t \in 1..Len(s) |-> ColSum(SubSeq(d, t, Len(d)), Len(d[t]))]
    [] g = "rev" -> Reverse(d)
    [] g = "tot" -> [t \in 1..Len(s) |-> ColSum(d, Len(d[t]))]
    [] g = "head" -> [t \in 1..Len(s) |-> IF t = 1 THEN d[1] ELSE Zeros(Len(s[t]))]
    [] g = "twice" -> [t \in 1..Len(s) |-> RowAdd(d[2 * t - 1], d[2 * t])]
ZeroGrad(P) == [W |-> [o \in 1..Len(P.W) |-> Zeros(Len(P.W[o]))], b |-> Zeros(Len(P.b))]
Owed(g, P, s, d) == IF g # "aff" \/ s = <<>> THEN ZeroGrad(P) ELSE [W |-> TMul(d, s, Len(P.W), Len(P.W[1])), b |-> ColSum(d, Len(P.b))]
GradAdd(a, c) == [W |-> RowsAdd(a.W, c.W), b |-> RowAdd(a.b, c.b)]

RECURSIVE Run(_, _, _)
\* the sequence before each stage and after the last
Run(gs, P, s) == IF gs = <<>> THEN <<s>> ELSE <<s>> \o Run(Tail(gs), P, Eager(Apply(Head(gs), P, s)))
F(gs, P, s) == LET r == Run(gs, P, s) IN r[Len(r)]
RECURSIVE Return(_, _, _, _, _)
Return(gs, P, r, d, j) ==
  IF j = 0 THEN [x |-> d, g |-> ZeroGrad(P)]
  ELSE LET rest == Return(gs, P, r, Eager(Pull(gs[j], P, r[j], d)), j - 1)
       IN [x |-> rest.x, g |-> GradAdd(rest.g, Owed(gs[j], P, r[j], d))]
B(gs, P, s, d) == Eager(Return(gs, P, Run(gs, P, s), d, Len(gs)))

Images(gs, P, seqs) == [q \in 1..Len(seqs) |-> Eager(F(gs, P, seqs[q]))]
Pulls(gs, P, seqs, ds) == [q \in 1..Len(seqs) |-> B(gs, P, seqs[q], ds[q])]
RECURSIVE Together(_, _, _)
Together(P, bs, n) == IF n = 0 THEN ZeroGrad(P) ELSE GradAdd(Together(P, bs, n - 1), bs[n].g)

\* ------------------------------------------------------------- containers
\* the description of the batch is consistent (padding may hold anything)
Described(k) ==
  CASE k.t = "g" -> Len(k.r) = Sum(k.n) /\ k.ln = Len(k.n)
    [] k.t = "p" -> /\ SortedDesc(k.n) /\ Len(k.x) = Len(k.n) /\ IsPerm(k.x) /\ Len(k.z) = Len(k.r) /\ k.ln = Len(k.n)
                    /\ \A t \in 1..Len(k.r) : Len(k.r[t]) = Len(k.n) /\ k.z[t] = Count(k.n, t - 1)
                    /\ (k.n # <<>> => Len(k.r) >= SMax(k.n))
    [] OTHER -> TRUE
\* how often each sequence occurs
SameBag(a, c) == /\ Len(a) = Len(c)
                 /\ \A q \in 1..Len(a) : Cardinality({j \in 1..Len(a) : a[j] = a[q]}) = Cardinality({j \in 1..Len(c) : c[j] = a[q]})
=============================================================================
