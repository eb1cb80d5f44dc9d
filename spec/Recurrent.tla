------------------------------ MODULE Recurrent ------------------------------
(***************************************************************************)
(* Recurrent layers (C23), in fixed point.                                 *)
(*                                                                         *)
(* Parameters of one direction of one layer:                               *)
(*   p.x[g][o]  weights of the inputs of gate g (1 forget, 2 input,        *)
(*              3 output, 4 candidate) of unit o;  p.h[g][o] of the hidden *)
(*   values;  p.b[g][o] bias;  p.h0, p.c0 initial hidden and cell values   *)
(* A stack is a sequence of layers, a layer a sequence of directions (the  *)
(* second one runs from the end of each sequence to its start).            *)
(* A batch is a sequence of sequences; each is processed on its own.       *)
(***************************************************************************)
EXTENDS Fixed

Eager(x) == IF x = x THEN x ELSE Assert(FALSE, "not a value")
Units(p) == 1..Len(p.b[1])
Gates == 1..4
\* one step: everything the backward pass needs
Cell(p, x, h, c) ==
  LET a == Eager([g \in Gates |-> [o \in Units(p) |-> FDot(x, p.x[g][o]) + FDot(h, p.h[g][o]) + p.b[g][o]]])
      n == Eager([g \in Gates |-> [o \in Units(p) |-> IF g = 4 THEN FTanh(a[g][o]) ELSE FSigmoid(a[g][o])]])
      c1 == Eager([o \in Units(p) |-> FMul(n[1][o], c[o]) + FMul(n[2][o], n[4][o])])
      t == Eager([o \in Units(p) |-> FTanh(c1[o])])
  IN [x |-> x, h0 |-> h, c0 |-> c, n |-> n, c |-> c1, t |-> t, y |-> Eager([o \in Units(p) |-> FMul(n[3][o], t[o])])]
RECURSIVE Run(_, _, _)
\* the cells of the first k steps
Run(p, seq, k) ==
  IF k = 0 THEN <<>>
  ELSE LET before == Run(p, seq, k - 1)
           h == IF k = 1 THEN p.h0 ELSE before[k - 1].y
           c == IF k = 1 THEN p.c0 ELSE before[k - 1].c
       IN before \o <<Cell(p, seq[k], h, c)>>
Rev(s) == [j \in 1..Len(s) |-> s[Len(s) + 1 - j]]
Cells(p, d, seq) == IF d = 1 THEN Run(p, seq, Len(seq)) ELSE Run(p, Rev(seq), Len(seq))
Ys(cells) == [j \in 1..Len(cells) |-> cells[j].y]
InTime(d, s) == IF d = 1 THEN s ELSE Rev(s)
RECURSIVE Beside(_)
Beside(ss) == IF Len(ss) = 1 THEN ss[1] ELSE LET r == Beside(Tail(ss)) IN [j \in 1..Len(r) |-> ss[1][j] \o r[j]]
\* the inputs of every layer, and the result of the last, for one sequence
RECURSIVE Inputs(_, _, _)
Layer(l, seq) == Eager(Beside([d \in 1..Len(l) |-> InTime(d, Ys(Cells(l[d], d, seq)))]))
Inputs(P, seq, i) == IF i = 0 THEN <<seq>> ELSE LET xs == Inputs(P, seq, i - 1) IN xs \o <<Layer(P[i], xs[i])>>
Output(P, seq) == LET xs == Inputs(P, seq, Len(P)) IN xs[Len(xs)]

\* ------------------------------------------------------------- backward
FZeros(n) == [j \in 1..n |-> 0]
VecAdd(a, b) == [j \in 1..Len(a) |-> a[j] + b[j]]
ZeroGrad(p) == [x |-> [g \in Gates |-> [o \in Units(p) |-> FZeros(Len(p.x[1][o]))]],
                h |-> [g \in Gates |-> [o \in Units(p) |-> FZeros(Len(p.h[1][o]))]],
                b |-> [g \in Gates |-> FZeros(Len(p.b[1]))]]
GradAdd(a, b) == Eager([x |-> [g \in Gates |-> [o \in 1..Len(a.b[1]) |-> VecAdd(a.x[g][o], b.x[g][o])]],
                        h |-> [g \in Gates |-> [o \in 1..Len(a.b[1]) |-> VecAdd(a.h[g][o], b.h[g][o])]],
                        b |-> [g \in Gates |-> VecAdd(a.b[g], b.b[g])]])
\* from step k to the end: gradient of the state before step k, of the inputs, of the parameters
RECURSIVE BackFrom(_, _, _, _)
BackFrom(p, cells, dys, k) ==
  IF k > Len(cells) THEN [dh |-> FZeros(Len(p.b[1])), dc |-> FZeros(Len(p.b[1])), dx |-> <<>>, g |-> ZeroGrad(p)]
  ELSE
    LET later == BackFrom(p, cells, dys, k + 1)
        q == cells[k]
        one(v) == S - FMul(v, v)
        dy == Eager(VecAdd(dys[k], later.dh))
        dc == Eager([o \in Units(p) |-> later.dc[o] + FMul(FMul(dy[o], q.n[3][o]), one(q.t[o]))])
        dn == [g \in Gates |-> [o \in Units(p) |->
                CASE g = 1 -> FMul(dc[o], q.c0[o]) [] g = 2 -> FMul(dc[o], q.n[4][o])
                  [] g = 3 -> FMul(dy[o], q.t[o]) [] g = 4 -> FMul(dc[o], q.n[2][o])]]
        da == Eager([g \in Gates |-> [o \in Units(p) |->
                FMul(dn[g][o], IF g = 4 THEN one(q.n[4][o]) ELSE FMul(q.n[g][o], S - q.n[g][o]))]])
        into(w, n) == [j \in 1..n |-> FSum([g \in Gates |-> FSum([o \in Units(p) |-> FMul(da[g][o], w[g][o][j])])])]
    IN [dh |-> Eager(into(p.h, Len(p.b[1]))),
        dc |-> Eager([o \in Units(p) |-> FMul(dc[o], q.n[1][o])]),
        dx |-> <<Eager(into(p.x, Len(q.x)))>> \o later.dx,
        g |-> GradAdd(later.g, [x |-> [g \in Gates |-> [o \in Units(p) |-> [j \in 1..Len(q.x) |-> FMul(da[g][o], q.x[j])]]],
                                h |-> [g \in Gates |-> [o \in Units(p) |-> [j \in Units(p) |-> FMul(da[g][o], q.h0[j])]]],
                                b |-> da])]
BackLayer(l, seq, dys) ==
  LET n == Len(l[1].b[1])
      part(d) == [j \in 1..Len(dys) |-> SubSeq(dys[j], (d - 1) * n + 1, d * n)]
      r(d) == BackFrom(l[d], Cells(l[d], d, seq), InTime(d, part(d)), 1)
      rs == Eager([d \in 1..Len(l) |-> r(d)])
      dx(d) == InTime(d, rs[d].dx)
  IN [dx |-> Eager([j \in 1..Len(seq) |-> [q \in 1..Len(seq[j]) |-> FSum([d \in 1..Len(l) |-> dx(d)[j][q]])]]),
      g |-> [d \in 1..Len(l) |-> rs[d].g]]
\* through layers i down to 1: [dx, g (of layers 1..i)]
RECURSIVE BackStack(_, _, _, _)
BackStack(P, xs, dys, i) ==
  IF i = 0 THEN [dx |-> dys, g |-> <<>>]
  ELSE LET b == BackLayer(P[i], xs[i], dys)
           r == BackStack(P, xs, b.dx, i - 1)
       IN [dx |-> r.dx, g |-> Append(r.g, b.g)]
Backward(P, seq, dys) == BackStack(P, Inputs(P, seq, Len(P)), dys, Len(P))
StackAdd(a, b) == [i \in 1..Len(a) |-> [d \in 1..Len(a[i]) |-> GradAdd(a[i][d], b[i][d])]]
ZeroStack(P) == [i \in 1..Len(P) |-> [d \in 1..Len(P[i]) |-> ZeroGrad(P[i][d])]]
RECURSIVE StackSum(_, _)
StackSum(P, gs) == IF gs = <<>> THEN ZeroStack(P) ELSE StackAdd(Head(gs), StackSum(P, Tail(gs)))
=============================================================================
