------------------------------- MODULE Smooth -------------------------------
(***************************************************************************)
(* Layers that compute on numbers rather than rearrange them (C24): dense  *)
(* layers with an activation, softmax output layers, layer normalization,  *)
(* attention and similarity, in fixed point, with their gradients.         *)
(*                                                                         *)
(* A layer is a record with a field k; a program is a sequence of layers   *)
(* (a chain).  Data is a sequence of rows; lens are the lengths of the     *)
(* sequences that make up the rows (for attention).                        *)
(*   dense             a (activation), W, b                                *)
(*   softmax           W, b, t (temperature), norm (at prediction too);    *)
(*                     its callback takes gradients of the logits          *)
(*   multisoftmax      W, b, parts (numbers of classes)                    *)
(*   layernorm         G, b                                                *)
(*   act               a;   softmax_activation                             *)
(*   attention         Q, key (a program of at most one dense layer)       *)
(*   cauchy            W; rows hold both vectors, the result is one value  *)
(* The gradients of a layer are a sequence of matrices, one per parameter. *)
(***************************************************************************)
EXTENDS Activation

Eager(x) == IF x = x THEN x ELSE Assert(FALSE, "not a value")
Idx(s) == 1..Len(s)
Affine(X, W, b) == Eager([r \in Idx(X) |-> [o \in Idx(W) |-> FDot(X[r], W[o]) + b[o]]])
MapM(Op(_), X) == [r \in Idx(X) |-> [j \in Idx(X[r]) |-> Op(X[r][j])]]
MatMul(X, W) == Eager([r \in Idx(X) |-> [j \in Idx(W[1]) |-> FSum([o \in Idx(W) |-> FMul(X[r][o], W[o][j])])]])
DW(dY, X, W) == Eager([o \in Idx(W) |-> [j \in Idx(W[o]) |-> FSum([r \in Idx(X) |-> FMul(dY[r][o], X[r][j])])]])
Cols(dY, n) == [o \in 1..n |-> FSum([r \in Idx(dY) |-> dY[r][o]])]

\* ----------------------------------------------------- layer normalization
\* the constant 1e-8 added to the variance vanishes in fixed point; constant rows become 0
NMean(x) == FSum(x) \div Len(x)
NVar(x) == LET m == NMean(x) IN FSum([j \in Idx(x) |-> FMul(x[j] - m, x[j] - m)]) \div Len(x)
NHat(x) == LET m == NMean(x)  s == FSqrt(NVar(x)) IN [j \in Idx(x) |-> IF s = 0 THEN 0 ELSE FDiv(x[j] - m, s)]
NBack(x, dh) ==
  LET h == Eager(NHat(x))  s == FSqrt(NVar(x))  n == Len(x)
      a == FSum(dh) \div n   b == FDot(dh, h) \div n
  IN [j \in 1..n |-> FDiv(dh[j] - a - FMul(h[j], b), s)]

\* ---------------------------------------------------- sequences of a batch
RECURSIVE StartsFrom(_, _)
StartsFrom(lens, at) == IF lens = <<>> THEN <<>> ELSE <<at>> \o StartsFrom(Tail(lens), at + Head(lens))
RECURSIVE Joined(_)
Joined(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Joined(Tail(ss))
Pieces(v, lens) == LET at == StartsFrom(lens, 0) IN [q \in Idx(lens) |-> SubSeq(v, at[q] + 1, at[q] + lens[q])]
\* a distribution over the rows of each sequence; scores are kept within 20
SeqSoftmax(scores, lens) ==
  Joined([q \in Idx(lens) |-> SoftmaxRow(Pieces([r \in Idx(scores) |-> Clamp(scores[r], F(-20), F(20))], lens)[q], S)])
SeqBack(p, dp, lens) ==
  LET ps == Pieces(p, lens)  ds == Pieces(dp, lens)
  IN Joined([q \in Idx(lens) |-> BackSoftmaxRow(ps[q], ds[q], S)])

Half(row, k) == LET n == Len(row) \div 2 IN IF k = 1 THEN SubSeq(row, 1, n) ELSE SubSeq(row, n + 1, 2 * n)
Diff(row) == LET a == Half(row, 1)  b == Half(row, 2) IN [j \in Idx(a) |-> a[j] - b[j]]
Square(v) == [j \in Idx(v) |-> FMul(v[j], v[j])]
Cauchy(W, row) == FDiv(S, S + FDot(W, Square(Diff(row))))
RECURSIVE PartsFrom(_, _)
PartsFrom(row, parts) == IF parts = <<>> THEN <<>>
                         ELSE SoftmaxRow(SubSeq(row, 1, Head(parts)), S) \o PartsFrom(SubSeq(row, Head(parts) + 1, Len(row)), Tail(parts))

\* ------------------------------------------------------------------ forward
Keys(l, X) == IF l.key = <<>> THEN X ELSE LET d == l.key[1]  A == Affine(X, d.W, d.b) IN Eager(MapM(LAMBDA z : Act(d.a, z), A))
Attention(l, X, lens) == LET K == Keys(l, X) IN Eager(SeqSoftmax([r \in Idx(X) |-> FDot(K[r], l.Q)], lens))
Fwd(l, X, lens, train) ==
  CASE l.k = "dense" -> (LET A == Affine(X, l.W, l.b) IN MapM(LAMBDA z : Act(l.a, z), A))
    [] l.k = "softmax" -> (LET A == Affine(X, l.W, l.b) IN IF train \/ l.norm THEN [r \in Idx(X) |-> SoftmaxRow(A[r], l.t)] ELSE A)
    [] l.k = "multisoftmax" -> (LET A == Affine(X, l.W, l.b) IN [r \in Idx(X) |-> PartsFrom(A[r], l.parts)])
    [] l.k = "layernorm" -> [r \in Idx(X) |-> LET h == Eager(NHat(X[r])) IN [j \in Idx(h) |-> FMul(h[j], l.G[j]) + l.b[j]]]
    [] l.k = "act" -> MapM(LAMBDA z : Act(l.a, z), X)
    [] l.k = "softmax_activation" -> [r \in Idx(X) |-> SoftmaxRow(X[r], S)]
    [] l.k = "attention" -> (LET p == Attention(l, X, lens) IN [r \in Idx(X) |-> [j \in Idx(X[r]) |-> FMul(X[r][j], p[r])]])
    [] l.k = "cauchy" -> [r \in Idx(X) |-> <<Cauchy(l.W, X[r])>>]
    [] l.k = "id" -> X
RECURSIVE Through(_, _, _, _)
\* the inputs of all layers and the result of the last
Through(P, X, lens, train) == IF P = <<>> THEN <<X>> ELSE <<X>> \o Through(Tail(P), Eager(Fwd(Head(P), X, lens, train)), lens, train)
Result(P, X, lens, train) == LET t == Through(P, X, lens, train) IN t[Len(t)]

\* ----------------------------------------------------------------- backward
One(s) == CHOOSE d \in s : TRUE
DActs(a, A, dY) == Eager([r \in Idx(A) |-> [j \in Idx(A[r]) |-> FMul(dY[r][j], One(DAct(a, A[r][j])))]])
DenseBack(l, X, dY) ==
  LET A == Affine(X, l.W, l.b)  dA == DActs(l.a, A, dY)
  IN [dx |-> MatMul(dA, l.W), g |-> <<DW(dA, X, l.W), <<Cols(dA, Len(l.b))>>>>]
\* the callbacks of the output layers expect the gradient of the logits
LogitBack(l, X, dY0, t) ==
  LET dY == Eager(IF t = S THEN dY0 ELSE MapM(LAMBDA z : FDiv(z, t), dY0))
  IN [dx |-> MatMul(dY, l.W), g |-> <<DW(dY, X, l.W), <<Cols(dY, Len(l.b))>>>>]
AttentionBack(l, X, lens, dY) ==
  LET p == Attention(l, X, lens)
      K == Keys(l, X)
      dp == Eager([r \in Idx(X) |-> FDot(X[r], dY[r])])
      ds == Eager(SeqBack(p, dp, lens))
      dK == Eager([r \in Idx(X) |-> [j \in Idx(l.Q) |-> FMul(ds[r], l.Q[j])]])
      kb == IF l.key = <<>> THEN [dx |-> dK, g |-> <<>>] ELSE DenseBack(l.key[1], X, dK)
  IN [dx |-> [r \in Idx(X) |-> [j \in Idx(X[r]) |-> FMul(dY[r][j], p[r]) + kb.dx[r][j]]],
      g |-> <<<<[j \in Idx(l.Q) |-> FSum([r \in Idx(X) |-> FMul(ds[r], K[r][j])])]>>>> \o kb.g]
CauchyBack(l, X, dY) ==
  LET y == [r \in Idx(X) |-> Cauchy(l.W, X[r])]
      dt == Eager([r \in Idx(X) |-> -FMul(dY[r][1], FMul(y[r], y[r]))])
      dd == Eager([r \in Idx(X) |-> LET d == Diff(X[r]) IN [j \in Idx(l.W) |-> 2 * FMul(FMul(l.W[j], dt[r]), d[j])]])
  IN [dx |-> [r \in Idx(X) |-> dd[r] \o [j \in Idx(l.W) |-> -dd[r][j]]],
      g |-> <<<<[j \in Idx(l.W) |-> FSum([r \in Idx(X) |-> FMul(dt[r], Square(Diff(X[r]))[j])])]>>>>]
Back(l, X, lens, dY) ==
  CASE l.k = "dense" -> DenseBack(l, X, dY)
    [] l.k = "softmax" -> LogitBack(l, X, dY, l.t)
    [] l.k = "multisoftmax" -> LogitBack(l, X, dY, S)
    [] l.k = "layernorm" ->
         [dx |-> [r \in Idx(X) |-> NBack(X[r], [j \in Idx(X[r]) |-> FMul(dY[r][j], l.G[j])])],
          g |-> <<<<[j \in Idx(l.G) |-> FSum([r \in Idx(X) |-> FMul(dY[r][j], NHat(X[r])[j])])]>>, <<Cols(dY, Len(l.b))>>>>]
    [] l.k = "act" -> [dx |-> DActs(l.a, X, dY), g |-> <<>>]
    [] l.k = "softmax_activation" -> [dx |-> [r \in Idx(X) |-> BackSoftmaxRow(SoftmaxRow(X[r], S), dY[r], S)], g |-> <<>>]
    [] l.k = "attention" -> AttentionBack(l, X, lens, dY)
    [] l.k = "cauchy" -> CauchyBack(l, X, dY)
    [] l.k = "id" -> [dx |-> dY, g |-> <<>>]
RECURSIVE BackThrough(_, _, _, _, _)
BackThrough(P, xs, lens, dY, k) ==
  IF k = 0 THEN [dx |-> dY, g |-> <<>>]
  ELSE LET b == Back(P[k], xs[k], lens, dY)
           r == BackThrough(P, xs, lens, Eager(b.dx), k - 1)
       IN [dx |-> r.dx, g |-> r.g \o <<b.g>>]
Gradients(P, X, lens, dY) == BackThrough(P, Through(P, X, lens, TRUE), lens, dY, Len(P))

\* ----------------- where a result or gradient is too sensitive to be judged
\* distance of a value from the kinks of an activation
Kinks(a) == CASE a.f = "relu" -> {0}
              [] a.f = "relu_k" -> {0, a.p[1]}
              [] a.f = "hard_sigmoid" -> {-163840, 163840}
              [] a.f = "hard_tanh" -> {-S, S}
              [] a.f = "hard_swish" -> {-163840, 163840}
              [] a.f = "hard_swish_mobilenet" -> {F(-3), F(3)}
              [] a.f = "clipped_linear" -> {FDiv(a.p[3] - a.p[2], a.p[1]), FDiv(a.p[4] - a.p[2], a.p[1])}
              [] a.f = "mish" -> {a.p[1]}
              [] OTHER -> {}
Clear(a, A) == \A r \in Idx(A) : \A j \in Idx(A[r]) : \A z \in Kinks(a) : FAbs(A[r][j] - z) > 200
Steady(l, X) ==
  CASE l.k = "dense" -> Clear(l.a, Affine(X, l.W, l.b))
    [] l.k = "act" -> Clear(l.a, X)
    [] l.k = "attention" -> (IF l.key = <<>> THEN TRUE ELSE Clear(l.key[1].a, Affine(X, l.key[1].W, l.key[1].b)))
    [] l.k = "layernorm" -> \A r \in Idx(X) : NVar(X[r]) >= 3277
    [] OTHER -> TRUE
RECURSIVE AllSteady(_, _, _)
AllSteady(P, xs, k) == IF k = 0 THEN TRUE ELSE Steady(P[k], xs[k]) /\ AllSteady(P, xs, k - 1)

\* sums of gradients
ZerosLike(g) == [k \in Idx(g) |-> [p \in Idx(g[k]) |-> [r \in Idx(g[k][p]) |-> [j \in Idx(g[k][p][r]) |-> 0]]]]
SumLike(a, b) == Eager([k \in Idx(a) |-> [p \in Idx(a[k]) |-> [r \in Idx(a[k][p]) |-> [j \in Idx(a[k][p][r]) |-> a[k][p][r][j] + b[k][p][r][j]]]]])
NearLike(a, b, tol) == Len(a) = Len(b) /\ \A k \in Idx(a) : Len(a[k]) = Len(b[k]) /\ \A p \in Idx(a[k]) : RowsNear(a[k][p], b[k][p], tol)
=============================================================================
