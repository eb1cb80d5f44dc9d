------------------------------- MODULE Layers -------------------------------
(***************************************************************************)
(* Denotational semantics of model expressions: Fwd is the function a      *)
(* model computes, Bwd its vector-Jacobian product.                        *)
(*                                                                         *)
(* An expression is a record [op, k, ...]: k is the sequence of children,  *)
(* leaves with parameters carry the index `id` of their node in the        *)
(* parameter environment P (a sequence of records W, b, E).  A node that   *)
(* occurs several times has the same id everywhere, so its gradient is the *)
(* sum over the occurrences.                                               *)
(*                                                                         *)
(* Bwd returns [dx |-> gradient of the input,                              *)
(*              g  |-> sequence of [id, nm, v] contributions].             *)
(***************************************************************************)
EXTENDS Values

RECURSIVE Fwd(_, _, _), Bwd(_, _, _, _), FwdOf(_, _, _), BwdOf(_, _, _, _), ChainVals(_, _, _, _), ChainBwd(_, _, _, _, _)

\* ------------------------------------------------------------- primitives
Affine(X, p, w) == Eager([i \in 1..Len(X) |-> [o \in 1..Len(p.W) |-> Dot(X[i], p.W[o]) + p.b[o]]])
Relu1(z) == IF z > 0 THEN z ELSE 0
ReluRows(Z) == [i \in 1..Len(Z) |-> [j \in 1..Len(Z[i]) |-> Relu1(Z[i][j])]]
GateRows(D, Z) == [i \in 1..Len(D) |-> [j \in 1..Len(D[i]) |-> IF Z[i][j] > 0 THEN D[i][j] ELSE 0]]

Clip(z, lo, hi) == IF z < lo THEN lo ELSE IF z > hi THEN hi ELSE z
ClipLin(e, z) == Clip(e.slope * z + e.offset, e.lo, e.hi)
\* the derivative at the break points is taken to be zero
ClipLinD(e, z) == LET y == e.slope * z + e.offset IN IF e.lo < y /\ y < e.hi THEN e.slope ELSE 0
ClipRows(e, Z) == [i \in 1..Len(Z) |-> [j \in 1..Len(Z[i]) |-> ClipLin(e, Z[i][j])]]
ClipGate(e, D, Z) == [i \in 1..Len(D) |-> [j \in 1..Len(D[i]) |-> D[i][j] * ClipLinD(e, Z[i][j])]]

\* maxout: W is a sequence over outputs of sequences over pieces of rows
MaxPre(X, p) == Eager([i \in 1..Len(X) |-> [o \in 1..Len(p.W) |->
                   [q \in 1..Len(p.W[o]) |-> Dot(X[i], p.W[o][q]) + p.b[o][q]]]])
MaxRows(Z) == [i \in 1..Len(Z) |-> [o \in 1..Len(Z[i]) |-> Z[i][o][ArgMax(Z[i][o])]]]
MaxGate(D, Z) == [i \in 1..Len(D) |-> [o \in 1..Len(D[i]) |->
                   [q \in 1..Len(Z[i][o]) |-> IF q = ArgMax(Z[i][o]) THEN D[i][o] ELSE 0]]]

\* windows: nW rows on either side, of the same sequence, zero outside
WindowSeq(seq, nW, w) ==
  [i \in 1..Len(seq) |->
     Flat([d \in 1..(2 * nW + 1) |->
        LET j == i + d - nW - 1 IN IF 1 <= j /\ j <= Len(seq) THEN seq[j] ELSE Zeros(w)])]
UnWindowSeq(dseq, nW, w) ==
  [j \in 1..Len(dseq) |->
     FoldRows([i \in 1..Len(dseq) |->
        LET d == j - i + nW + 1 IN
          IF 1 <= d /\ d <= 2 * nW + 1 THEN SubSeq(dseq[i], (d - 1) * w + 1, d * w) ELSE Zeros(w)],
        Len(dseq), w)]

\* reductions of one sequence to one row
RedRow(kind, seq, w) ==
  CASE Len(seq) = 0 -> Zeros(w)
    [] kind = "sum" -> ColSum(seq, w)
    [] kind = "mean" -> [j \in 1..w |-> ColSum(seq, w)[j] \div Len(seq)]
    [] kind = "max" -> [j \in 1..w |-> SMax(Col(seq, j))]
    [] kind = "first" -> seq[1]
    [] kind = "last" -> seq[Len(seq)]
RedBack(kind, seq, w, d) ==
  [i \in 1..Len(seq) |->
    CASE kind = "sum" -> d
      [] kind = "mean" -> [j \in 1..w |-> d[j] \div Len(seq)]
      [] kind = "max" -> [j \in 1..w |-> IF ArgMax(Col(seq, j)) = i THEN d[j] ELSE 0]
      [] kind = "first" -> IF i = 1 THEN d ELSE Zeros(w)
      [] kind = "last" -> IF i = Len(seq) THEN d ELSE Zeros(w)]

\* rows selected by a list of (zero-based, in range) positions
Take(rows, idx) == [i \in 1..Len(idx) |-> rows[idx[i] + 1]]
UnTake(d, idx, n, w) == [r \in 1..n |->
   FoldRows([i \in 1..Len(idx) |-> IF idx[i] + 1 = r THEN d[i] ELSE Zeros(w)], Len(idx), w)]

Grad(id, nm, v) == [id |-> id, nm |-> nm, v |-> v]
OpsWithParams == {"linear", "relu", "maxout", "cliplin", "embed"}

\* sequences in the padded batch, reversed in time (lengths kept)
RevSeqs(X) == ToPadded(X.w, [i \in 1..Len(X.n) |-> Reverse(PaddedSeqs(X)[i])])

\* 2-d view of a batch for row-wise inner layers, and back
RowsOf(X) == CASE X.t = "l" -> Flat([i \in 1..Len(X.s) |-> X.s[i].r])
               [] X.t = "g" -> X.r
               [] X.t = "m" -> X.r

\* ---------------------------------------------------------------- forward
Fwd(e, P, X) == Eager(FwdOf(e, P, X))
FwdOf(e, P, X) ==
  CASE e.op \in {"noop", "debug", "nvtx", "signpost", "cpu", "drop0"} ->
         IF Len(e.k) = 0 THEN X ELSE Fwd(e.k[1], P, X)
    [] e.op = "linear" -> M(e.nO, Affine(X.r, P[e.id], X.w))
    [] e.op = "relu" -> M(e.nO, ReluRows(Affine(X.r, P[e.id], X.w)))
    [] e.op = "cliplin" -> M(e.nO, ClipRows(e, Affine(X.r, P[e.id], X.w)))
    [] e.op = "maxout" -> M(e.nO, MaxRows(MaxPre(X.r, P[e.id])))
    [] e.op = "embed" -> M(e.nO, Take(P[e.id].E, X.r))
    [] e.op = "scale" -> \* a user-defined row-wise layer: multiply by an integer
         (CASE X.t = "m" -> M(X.w, [i \in 1..Len(X.r) |-> RowScale(e.c, X.r[i])])
            [] X.t = "g" -> G(X.w, [i \in 1..Len(X.r) |-> RowScale(e.c, X.r[i])], X.n)
            [] X.t = "l" -> L([i \in 1..Len(X.s) |-> Fwd(e, P, X.s[i])])
            [] X.t \in {"c", "p"} -> [X EXCEPT !.r = [i \in 1..Len(X.r) |-> [j \in 1..Len(X.r[i]) |-> RowScale(e.c, X.r[i][j])]]])
    [] e.op = "prefix" -> \* a user-defined sequence layer: running sums inside each sequence
         Like(X, WidthOf(X), [q \in 1..Len(SeqsOf(X)) |-> [i \in 1..Len(SeqsOf(X)[q]) |-> FoldRows(SeqsOf(X)[q], i, WidthOf(X))]])
    [] e.op = "diff" -> VSub(X.s[1], X.s[2])    \* a user-defined pair layer
    [] e.op = "chain" -> LET vs == ChainVals(e.k, P, X, 1) IN vs[Len(vs)]
    [] e.op = "add" -> VAddAll([i \in 1..Len(e.k) |-> Fwd(e.k[i], P, X)])
    [] e.op = "residual" -> VAdd(X, Fwd(e.k[1], P, X))
    [] e.op = "tuplify" -> U([i \in 1..Len(e.k) |-> Fwd(e.k[i], P, X)])
    [] e.op = "concat" ->
         LET Ys == Eager([i \in 1..Len(e.k) |-> Fwd(e.k[i], P, X)])
             n == Len(Ys)
             cat(rs) == [i \in 1..Len(rs[1]) |-> Flat([j \in 1..n |-> rs[j][i]])]
             W == Sum([i \in 1..n |-> WidthOf(Ys[i])])
         IN (CASE Ys[1].t = "m" -> M(W, cat([j \in 1..n |-> Ys[j].r]))
              [] Ys[1].t = "g" -> G(W, cat([j \in 1..n |-> Ys[j].r]), Ys[1].n)
              [] Ys[1].t = "l" -> L([q \in 1..Len(Ys[1].s) |->
                                       M(Sum([j \in 1..n |-> Ys[j].s[q].w]), cat([j \in 1..n |-> Ys[j].s[q].r]))]))
    [] e.op = "siamese" -> Fwd(e.k[2], P, U(<<Fwd(e.k[1], P, X.s[1]), Fwd(e.k[1], P, X.s[2])>>))
    [] e.op = "map_list" -> L([i \in 1..Len(X.s) |-> Fwd(e.k[1], P, X.s[i])])
    [] e.op = "getitem" -> [X EXCEPT !.s[e.i + 1] = Fwd(e.k[1], P, X.s[e.i + 1])]
    [] e.op = "take" -> M(X.w, Take(X.r, e.idx))
    [] e.op = "cols" -> M(e.hi - e.lo, SubCols(X.r, e.lo + 1, e.hi))
    [] e.op = "idcol" -> V(Col(X.r, e.col + 1))
    [] e.op = "uniqued" -> Fwd(e.k[1], P, X)
    [] e.op = "bidir" ->
         LET Y1 == Fwd(e.k[1], P, X)
             Y2 == Fwd(e.k[2], P, X)
         IN PD(Y1.w + Y2.w, [k \in 1..Len(Y1.r) |-> [b \in 1..Len(Y1.r[k]) |-> Y1.r[k][b] \o Y2.r[k][b]]],
               X.z, X.n, X.x)
    [] e.op = "window" ->
         LET w == (2 * e.nW + 1) * WidthOf(X) IN
         IF X.t = "m" THEN M(w, WindowSeq(X.r, e.nW, X.w))
         ELSE Like(X, w, [q \in 1..Len(X.n) |-> WindowSeq(SeqsOf(X)[q], e.nW, X.w)])
    [] e.op = "reduce" -> M(X.w, [q \in 1..Len(X.n) |-> RedRow(e.kind, SeqsOf(X)[q], X.w)])
    [] e.op = "list2ragged" -> Like(G(0, <<>>, <<>>), WidthOf(X), SeqsOf(X))
    [] e.op = "ragged2list" -> Lst(X.w, SeqsOf(X))
    [] e.op = "list2padded" -> ToPadded(WidthOf(X), SeqsOf(X))
    [] e.op = "padded2list" -> Lst(X.w, SeqsOf(X))
    [] e.op = "list2array" -> M(WidthOf(X), Flat(SeqsOf(X)))
    [] e.op = "with_array" -> \* inner layer is row-wise
         (CASE X.t = "m" -> Fwd(e.k[1], P, X)
            [] X.t = "g" -> LET Y == Fwd(e.k[1], P, M(X.w, X.r)) IN G(Y.w, Y.r, X.n)
            [] X.t = "l" -> LET Y == Fwd(e.k[1], P, M(WidthOf(X), RowsOf(X)))
                            IN Lst(Y.w, Split(Y.r, Lens(SeqsOf(X))))
            [] X.t \in {"c", "p"} -> Fwd(e.k[1], P, X))
    [] e.op = "with_array2d" ->
         (CASE X.t = "m" -> Fwd(e.k[1], P, X)
            [] X.t = "g" -> LET Y == Fwd(e.k[1], P, M(X.w, X.r)) IN G(Y.w, Y.r, X.n)
            [] X.t = "l" -> LET Y == Fwd(e.k[1], P, M(WidthOf(X), RowsOf(X)))
                            IN Lst(Y.w, Split(Y.r, Lens(SeqsOf(X))))
            [] X.t = "p" -> LET Y == Fwd(e.k[1], P, M(X.w, Flat(X.r)))
                                nB == Len(X.n)
                            IN PD(Y.w, Split(Y.r, [k \in 1..Len(X.r) |-> nB]), X.z, X.n, X.x))
    [] e.op = "with_reshape" ->
         LET Y == Fwd(e.k[1], P, M(X.w, Flat(X.r))) IN C3(Y.w, Split(Y.r, Lens(X.r)))
    [] e.op = "with_list" ->
         LET Y == Fwd(e.k[1], P, Lst(WidthOf(X), SeqsOf(X))) IN Like(X, WidthOf(Y), SeqsOf(Y))
    [] e.op = "with_ragged" ->
         LET Y == Fwd(e.k[1], P, Like(G(0, <<>>, <<>>), WidthOf(X), SeqsOf(X))) IN Like(X, Y.w, SeqsOf(Y))
    [] e.op = "with_padded" ->
         IF X.t = "p" THEN Fwd(e.k[1], P, X)
         ELSE LET Y == Fwd(e.k[1], P, ToPadded(WidthOf(X), SeqsOf(X))) IN Like(X, Y.w, SeqsOf(Y))

ChainVals(k, P, X, i) ==
  IF i > Len(k) THEN <<X>> ELSE <<X>> \o ChainVals(k, P, Fwd(k[i], P, X), i + 1)

\* --------------------------------------------------------------- backward
ChainBwd(k, P, vs, i, dY) ==
  IF i = 0 THEN [dx |-> dY, g |-> <<>>]
  ELSE LET b == Bwd(k[i], P, vs[i], dY)
           rest == ChainBwd(k, P, vs, i - 1, b.dx)
       IN [dx |-> rest.dx, g |-> b.g \o rest.g]

AffineBwd(e, P, X, D) ==
  [dx |-> M(X.w, Mul(D, P[e.id].W, X.w)),
   g |-> <<Grad(e.id, "W", Flat(TMul(D, X.r, e.nO, X.w))), Grad(e.id, "b", ColSum(D, e.nO))>>]

Bwd(e, P, X, dY) == Eager(BwdOf(e, P, X, dY))
BwdOf(e, P, X, dY) ==
  CASE e.op \in {"noop", "debug", "nvtx", "signpost", "cpu", "drop0"} ->
         IF Len(e.k) = 0 THEN [dx |-> dY, g |-> <<>>] ELSE Bwd(e.k[1], P, X, dY)
    [] e.op = "linear" -> AffineBwd(e, P, X, dY.r)
    [] e.op = "relu" -> AffineBwd(e, P, X, GateRows(dY.r, Affine(X.r, P[e.id], X.w)))
    [] e.op = "cliplin" -> AffineBwd(e, P, X, ClipGate(e, dY.r, Affine(X.r, P[e.id], X.w)))
    [] e.op = "maxout" ->
         LET W == P[e.id].W
             nP == Len(W[1])
             D == MaxGate(dY.r, MaxPre(X.r, P[e.id]))
             n == Len(D)
         IN [dx |-> M(X.w, [i \in 1..n |-> [j \in 1..X.w |->
                        Sum([o \in 1..e.nO |-> Sum([q \in 1..nP |-> D[i][o][q] * W[o][q][j]])])]]),
             g |-> <<Grad(e.id, "W", Flat([o \in 1..e.nO |-> Flat([q \in 1..nP |-> [j \in 1..X.w |->
                        Sum([i \in 1..n |-> D[i][o][q] * X.r[i][j]])]])])),
                     Grad(e.id, "b", Flat([o \in 1..e.nO |-> [q \in 1..nP |-> Sum([i \in 1..n |-> D[i][o][q]])]]))>>]
    [] e.op = "embed" ->
         [dx |-> V(Zeros(Len(X.r))),
          g |-> <<Grad(e.id, "E", Flat(UnTake(dY.r, X.r, Len(P[e.id].E), e.nO)))>>]
    [] e.op = "scale" -> [dx |-> Fwd(e, P, dY), g |-> <<>>]
    [] e.op = "prefix" ->
         LET S == SeqsOf(dY) IN
         [dx |-> Like(dY, WidthOf(dY), [q \in 1..Len(S) |->
                    [i \in 1..Len(S[q]) |-> FoldRows(SubSeq(S[q], i, Len(S[q])), Len(S[q]) - i + 1, WidthOf(dY))]]),
          g |-> <<>>]
    [] e.op = "diff" -> [dx |-> U(<<dY, VSub(VSub(dY, dY), dY)>>), g |-> <<>>]
    [] e.op = "chain" -> ChainBwd(e.k, P, ChainVals(e.k, P, X, 1), Len(e.k), dY)
    [] e.op = "add" ->
         LET bs == Eager([i \in 1..Len(e.k) |-> Bwd(e.k[i], P, X, dY)])
         IN [dx |-> VAddAll([i \in 1..Len(e.k) |-> bs[i].dx]), g |-> Flat([i \in 1..Len(e.k) |-> bs[i].g])]
    [] e.op = "residual" ->
         LET b == Bwd(e.k[1], P, X, dY) IN [dx |-> VAdd(dY, b.dx), g |-> b.g]
    [] e.op = "tuplify" ->
         LET bs == Eager([i \in 1..Len(e.k) |-> Bwd(e.k[i], P, X, dY.s[i])])
         IN [dx |-> VAddAll([i \in 1..Len(e.k) |-> bs[i].dx]), g |-> Flat([i \in 1..Len(e.k) |-> bs[i].g])]
    [] e.op = "concat" ->
         LET Ys == Eager([i \in 1..Len(e.k) |-> Fwd(e.k[i], P, X)])
             n == Len(Ys)
             width(i) == IF Ys[i].t = "l" THEN (IF Len(Ys[i].s) = 0 THEN 0 ELSE Ys[i].s[1].w) ELSE Ys[i].w
             lo(i) == Sum([j \in 1..(i - 1) |-> width(j)])
             part(i) == Eager(CASE dY.t = "m" -> M(width(i), SubCols(dY.r, lo(i) + 1, lo(i) + width(i)))
                          [] dY.t = "g" -> G(width(i), SubCols(dY.r, lo(i) + 1, lo(i) + width(i)), dY.n)
                          [] dY.t = "l" -> L([q \in 1..Len(dY.s) |-> M(width(i), SubCols(dY.s[q].r, lo(i) + 1, lo(i) + width(i)))]))
             bs == Eager([i \in 1..n |-> Bwd(e.k[i], P, X, part(i))])
         IN [dx |-> VAddAll([i \in 1..n |-> bs[i].dx]), g |-> Flat([i \in 1..n |-> bs[i].g])]
    [] e.op = "siamese" ->
         LET Y1 == Fwd(e.k[1], P, X.s[1])
             Y2 == Fwd(e.k[1], P, X.s[2])
             s == Bwd(e.k[2], P, U(<<Y1, Y2>>), dY)
             b1 == Bwd(e.k[1], P, X.s[1], s.dx.s[1])
             b2 == Bwd(e.k[1], P, X.s[2], s.dx.s[2])
         IN [dx |-> U(<<b1.dx, b2.dx>>), g |-> s.g \o b1.g \o b2.g]
    [] e.op = "map_list" ->
         LET bs == Eager([i \in 1..Len(X.s) |-> Bwd(e.k[1], P, X.s[i], dY.s[i])])
         IN [dx |-> L([i \in 1..Len(X.s) |-> bs[i].dx]), g |-> Flat([i \in 1..Len(X.s) |-> bs[i].g])]
    [] e.op = "getitem" ->
         LET b == Bwd(e.k[1], P, X.s[e.i + 1], dY.s[e.i + 1])
         IN [dx |-> [dY EXCEPT !.s[e.i + 1] = b.dx], g |-> b.g]
    [] e.op = "take" -> [dx |-> M(X.w, UnTake(dY.r, e.idx, Len(X.r), X.w)), g |-> <<>>]
    [] e.op = "cols" ->
         [dx |-> M(X.w, [i \in 1..Len(X.r) |-> [j \in 1..X.w |->
                    IF e.lo < j /\ j <= e.hi THEN dY.r[i][j - e.lo] ELSE 0]]), g |-> <<>>]
    [] e.op = "idcol" ->
         [dx |-> M(X.w, [i \in 1..Len(X.r) |-> [j \in 1..X.w |-> IF j = e.col + 1 THEN dY.r[i] ELSE 0]]), g |-> <<>>]
    [] e.op = "uniqued" -> Bwd(e.k[1], P, X, dY)
    [] e.op = "bidir" ->
         LET Y1 == Fwd(e.k[1], P, X)
             h == Y1.w
             d1 == [dY EXCEPT !.w = h, !.r = [k \in 1..Len(dY.r) |-> SubCols(dY.r[k], 1, h)]]
             d2 == [dY EXCEPT !.w = dY.w - h, !.r = [k \in 1..Len(dY.r) |-> SubCols(dY.r[k], h + 1, dY.w)]]
             b1 == Bwd(e.k[1], P, X, d1)
             b2 == Bwd(e.k[2], P, X, d2)
         IN [dx |-> VAdd(b1.dx, b2.dx), g |-> b1.g \o b2.g]
    [] e.op = "window" ->
         LET w == WidthOf(X) IN
         [dx |-> IF X.t = "m" THEN M(w, UnWindowSeq(dY.r, e.nW, w))
                 ELSE Like(X, w, [q \in 1..Len(X.n) |-> UnWindowSeq(SeqsOf(dY)[q], e.nW, w)]),
          g |-> <<>>]
    [] e.op = "reduce" ->
         [dx |-> Like(X, X.w, [q \in 1..Len(X.n) |-> RedBack(e.kind, SeqsOf(X)[q], X.w, dY.r[q])]), g |-> <<>>]
    [] e.op \in {"list2ragged", "ragged2list", "list2padded", "padded2list"} ->
         [dx |-> Like(X, WidthOf(dY), SeqsOf(dY)), g |-> <<>>]
    [] e.op = "list2array" -> [dx |-> Lst(dY.w, Split(dY.r, Lens(SeqsOf(X)))), g |-> <<>>]
    [] e.op = "with_array" ->
         (CASE X.t \in {"m", "c", "p"} -> Bwd(e.k[1], P, X, dY)
            [] X.t = "g" -> LET b == Bwd(e.k[1], P, M(X.w, X.r), M(dY.w, dY.r))
                            IN [dx |-> G(b.dx.w, b.dx.r, X.n), g |-> b.g]
            [] X.t = "l" -> LET b == Bwd(e.k[1], P, M(WidthOf(X), RowsOf(X)), M(WidthOf(dY), RowsOf(dY)))
                            IN [dx |-> Lst(b.dx.w, Split(b.dx.r, Lens(SeqsOf(X)))), g |-> b.g])
    [] e.op = "with_array2d" ->
         (CASE X.t = "m" -> Bwd(e.k[1], P, X, dY)
            [] X.t = "g" -> LET b == Bwd(e.k[1], P, M(X.w, X.r), M(dY.w, dY.r))
                            IN [dx |-> G(b.dx.w, b.dx.r, X.n), g |-> b.g]
            [] X.t = "l" -> LET b == Bwd(e.k[1], P, M(WidthOf(X), RowsOf(X)), M(WidthOf(dY), RowsOf(dY)))
                            IN [dx |-> Lst(b.dx.w, Split(b.dx.r, Lens(SeqsOf(X)))), g |-> b.g]
            [] X.t = "p" -> LET b == Bwd(e.k[1], P, M(X.w, Flat(X.r)), M(dY.w, Flat(dY.r)))
                                nB == Len(X.n)
                            IN [dx |-> PD(b.dx.w, Split(b.dx.r, [k \in 1..Len(X.r) |-> nB]), X.z, X.n, X.x), g |-> b.g])
    [] e.op = "with_reshape" ->
         LET b == Bwd(e.k[1], P, M(X.w, Flat(X.r)), M(dY.w, Flat(dY.r)))
         IN [dx |-> C3(b.dx.w, Split(b.dx.r, Lens(X.r))), g |-> b.g]
    [] e.op = "with_list" ->
         LET b == Bwd(e.k[1], P, Lst(WidthOf(X), SeqsOf(X)), Lst(WidthOf(dY), SeqsOf(dY)))
         IN [dx |-> Like(X, WidthOf(b.dx), SeqsOf(b.dx)), g |-> b.g]
    [] e.op = "with_ragged" ->
         LET b == Bwd(e.k[1], P, Like(G(0, <<>>, <<>>), WidthOf(X), SeqsOf(X)),
                      Like(G(0, <<>>, <<>>), WidthOf(dY), SeqsOf(dY)))
         IN [dx |-> Like(X, b.dx.w, SeqsOf(b.dx)), g |-> b.g]
    [] e.op = "with_padded" ->
         IF X.t = "p" THEN Bwd(e.k[1], P, X, dY)
         ELSE LET b == Bwd(e.k[1], P, ToPadded(WidthOf(X), SeqsOf(X)), ToPadded(WidthOf(dY), SeqsOf(dY)))
         IN [dx |-> Like(X, b.dx.w, SeqsOf(b.dx)), g |-> b.g]

\* ------------------------------------------------------- gradient stores
\* A gradient store maps <<node, name>> to the flattened gradient; a parameter
\* that never received a gradient is absent.
RECURSIVE GAddFrom(_, _, _)
GAddFrom(G0, gs, i) ==
  IF i > Len(gs) THEN G0
  ELSE LET key == <<gs[i].id, gs[i].nm>>
           G1 == IF key \in DOMAIN G0 THEN [G0 EXCEPT ![key] = RowAdd(@, gs[i].v)]
                 ELSE (key :> gs[i].v) @@ G0
       IN GAddFrom(Eager(G1), gs, i + 1)
GAdd(G0, gs) == GAddFrom(G0, gs, 1)
NoGrads == [k \in {} |-> <<>>]
=============================================================================
