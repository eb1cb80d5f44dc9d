------------------------------ MODULE LayersMC ------------------------------
(***************************************************************************)
(* Design run of the layer semantics: Bwd is the transpose of Fwd.         *)
(*                                                                         *)
(* For every expression of a bounded grammar and a few inputs, gradients   *)
(* and directions, the exact dot test                                      *)
(*     <Bwd(dY), d> = <dY, Fwd(X + d) - Fwd(X)>                            *)
(* is checked for perturbations d of the input and of every parameter      *)
(* entry, wherever the piecewise-linear function has no kink between       *)
(* X - d and X + d.                                                        *)
(***************************************************************************)
EXTENDS Layers

CONSTANT Deep

VARIABLES e, X, done, n
vars == <<e, X, done, n>>

Leaf(op, id) == [op |-> op, k |-> <<>>, nO |-> 2, id |-> id]
Clp == [op |-> "cliplin", k |-> <<>>, nO |-> 2, id |-> 1, slope |-> 2, offset |-> 1, lo |-> -40, hi |-> 60]
Op0(op) == [op |-> op, k |-> <<>>]
Op1(op, a) == [op |-> op, k |-> <<a>>]
Op2(op, a, b) == [op |-> op, k |-> <<a, b>>]
Op3(op, a, b, c) == [op |-> op, k |-> <<a, b, c>>]
P == <<[W |-> <<<<1, -1>>, <<2, 1>>>>, b |-> <<3, -5>>],
       [W |-> <<<<-1, 1>>, <<1, 0>>>>, b |-> <<7, 2>>],
       [W |-> <<<<<<1, 1>>, <<-1, 0>>>>, <<<<0, 1>>, <<2, -1>>>>>>, b |-> <<<<1, 4>>, <<-3, 2>>>>],
       [W |-> <<<<1, 0, -1, 1, 1, 0>>, <<0, 1, 1, 0, -1, 1>>>>, b |-> <<3, 1>>]>>

L0 == {Leaf("linear", 1), Leaf("relu", 2), Leaf("maxout", 3), Clp, [op |-> "scale", k |-> <<>>, c |-> -2]}
Diff == Op0("diff")
Comb1(S) == {Op1("residual", a) : a \in S} \cup {Op1("debug", a) : a \in S}
Comb2(S, T) ==
  UNION { {Op2("chain", a, b), Op2("add", a, b), Op2("chain", Op2("tuplify", a, b), Diff)} : a \in S, b \in T }
CatLin(S, T) ==
  {Op2("chain", Op2("concat", a, b), [op |-> "cols", k |-> <<>>, lo |-> 1, hi |-> 3]) : a \in S, b \in T}
Pairs(S, T) ==
  {Op3("chain", Op2("tuplify", a, b), Op2("siamese", b, Diff), Op0("noop")) : a \in S, b \in T}
  \cup {Op3("chain", Op2("tuplify", a, b), [op |-> "getitem", i |-> 1, k |-> <<a>>], Diff) : a \in S, b \in T}
L1 == L0 \cup Comb1(L0) \cup Comb2(L0, L0) \cup CatLin(L0, L0) \cup Pairs(L0, L0)
L2 == Comb1(L1) \cup Comb2(L0, L1)
MatE == IF Deep THEN L1 \cup L2 ELSE L1
Win == Op2("chain", [op |-> "window", k |-> <<>>, nW |-> 1], Op1("with_array", Leaf("linear", 4)))
\* over ragged batches
RagE == {Op1(w, a) : w \in {"with_array", "with_array2d"}, a \in L0 \cup (IF Deep THEN L1 ELSE {})}
        \cup {Op1("with_list", Op1("map_list", a)) : a \in L0}
        \cup {Op1("with_padded", Op1("with_array2d", a)) : a \in L0}
        \cup {Op1("with_list", Op1("with_array", a)) : a \in L0}
        \cup {Win, Op0("prefix"), Op1("residual", Op0("prefix")), Op2("chain", Win, Op0("prefix")),
              Op2("chain", Op0("ragged2list"), Op0("list2array")),
              Op2("chain", Op0("ragged2list"), Op0("list2padded")),
              Op2("chain", Win, [op |-> "reduce", k |-> <<>>, kind |-> "sum"])}
        \cup {[op |-> "reduce", k |-> <<>>, kind |-> kd] : kd \in {"sum", "max", "first", "last"}}
        \cup {Op2("chain", Op2("chain", Op0("ragged2list"), Op0("list2padded")),
                  Op2("bidir", Op1("with_array2d", a), Op1("with_array2d", b))) : a \in L0, b \in L0}
        \cup {Op2("concat", Op1("with_array", a), Op1("with_array", b)) : a \in L0, b \in L0}

MatX == {M(2, <<<<20, -11>>, <<7, 31>>>>), M(2, <<<<-9, 13>>, <<17, -25>>>>)}
RagX == {G(2, <<<<20, -11>>, <<7, 31>>, <<-9, 14>>>>, <<2, 1>>), G(2, <<<<5, 11>>, <<-7, 23>>, <<-19, -4>>>>, <<1, 2>>)}

Init == /\ \/ e \in MatE /\ X \in MatX
           \/ e \in RagE /\ X \in RagX
        /\ done = FALSE /\ n = 0

\* directions of the input: unit vectors
Nudge(x, i, j, s) == [x EXCEPT !.r[i][j] = @ + s]
Unit(x, i, j) == [x EXCEPT !.r = [a \in 1..Len(x.r) |-> [b \in 1..x.w |-> IF a = i /\ b = j THEN 1 ELSE 0]]]

RECURSIVE GradLike(_, _)
\* a gradient with the structure of y and varied entries
GradLike(y, s) ==
  CASE y.t \in {"m", "g"} -> [y EXCEPT !.r = [i \in 1..Len(y.r) |-> [j \in 1..y.w |-> ((i * 3 + j * 5 + s) % 7) - 3]]]
    [] y.t = "p" -> [y EXCEPT !.r = [k \in 1..Len(y.r) |-> [i \in 1..Len(y.r[k]) |-> [j \in 1..y.w |->
                       IF k <= y.n[i] THEN ((k + i * 3 + j * 5 + s) % 7) - 3 ELSE 0]]]]
    [] y.t = "l" -> L([i \in 1..Len(y.s) |-> GradLike(y.s[i], s + i)])

\* the function is linear over the five equidistant values
NoKink(lo2, lo, mid, hi, hi2) ==
  LET d == Eager(VSub(hi, mid)) IN VSub(mid, lo) = d /\ VSub(lo, lo2) = d /\ VSub(hi2, hi) = d

DotIn(dY, dX, i, j) ==
  LET y0 == Fwd(e, P, X)
      y1 == Fwd(e, P, Nudge(X, i, j, 1))
      at(s) == Fwd(e, P, Nudge(X, i, j, s))
  IN NoKink(at(-2), at(-1), y0, y1, at(2)) => VDot(dX, Unit(X, i, j)) = VDot(dY, VSub(y1, y0))

\* parameter entries by flat position
NudgeP(id, nm, q, s) ==
  LET p == P[id]
      three == nm = "W" /\ id = 3 IN
  IF nm = "W" /\ ~three THEN
       LET w == Len(p.W[1]) IN [p EXCEPT !.W[((q - 1) \div w) + 1][((q - 1) % w) + 1] = @ + s]
  ELSE IF three THEN
       LET w == Len(p.W[1][1])
           k == Len(p.W[1]) IN
       [p EXCEPT !.W[((q - 1) \div (w * k)) + 1][(((q - 1) \div w) % k) + 1][((q - 1) % w) + 1] = @ + s]
  ELSE IF id = 3 THEN [p EXCEPT !.b[((q - 1) \div 2) + 1][((q - 1) % 2) + 1] = @ + s]
  ELSE [p EXCEPT !.b[q] = @ + s]
DotPar(dY, G0, key, q) ==
  LET at(s) == Fwd(e, [P EXCEPT ![key[1]] = NudgeP(key[1], key[2], q, s)], X)
      y0 == Fwd(e, P, X)
      y1 == at(1)
  IN NoKink(at(-2), at(-1), y0, y1, at(2)) => G0[key][q] = VDot(dY, VSub(y1, y0))

\* sharing makes the function non-linear in a parameter: only models in which each
\* parameter occurs once are tested for parameter gradients
RECURSIVE Occ(_, _)
Occ(x, id) == (IF "id" \in DOMAIN x /\ x.id = id THEN 1 ELSE 0) + Sum([i \in 1..Len(x.k) |-> Occ(x.k[i], id)])
RECURSIVE Reused(_)
Reused(x) == x.op \in {"siamese", "map_list"} \/ \E i \in 1..Len(x.k) : Reused(x.k[i])

Check ==
  LET y == Fwd(e, P, X)
      dY == Eager(GradLike(y, 1))
      b == Bwd(e, P, X, dY)
      G0 == GAdd(NoGrads, b.g)
  IN /\ \A i \in 1..Len(X.r), j \in 1..X.w : DotIn(dY, b.dx, i, j)
     /\ \A key \in DOMAIN G0 :
          (Occ(e, key[1]) = 1 /\ ~Reused(e)) => \A q \in 1..Len(G0[key]) : DotPar(dY, G0, key, q)
Next == /\ ~done
        /\ done' = TRUE
        /\ n' = IF Check THEN 1 ELSE -1
        /\ UNCHANGED <<e, X>>
Spec == Init /\ [][Next]_vars
Adjoint == n # -1
=============================================================================
