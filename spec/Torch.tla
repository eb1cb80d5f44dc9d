------------------------------- MODULE Torch -------------------------------
(***************************************************************************)
(* Wrapped PyTorch modules (C21), over the integers.                       *)
(*                                                                         *)
(* Data is a sequence of rows, parameters are matrices by name (a vector   *)
(* is a matrix of one row).  A module is a sequence of expressions, one    *)
(* per tensor that it returns; an expression is a record with a field k:   *)
(*   in     i              the input number i                              *)
(*   lin    W, b, s        rows times W transposed plus b ("" for none)    *)
(*   scale  p, s           columns times p                                 *)
(*   shift  p, s           columns plus p                                  *)
(*   mul, add, relu        s, the operands                                 *)
(*   rows   p, i           the rows of p named by the (integer) input i    *)
(*   mode   a, b, s        times a in training and b in evaluation         *)
(*                                                                         *)
(* The state of a wrapper is [p |-> parameters, g |-> gradients added up   *)
(* since the last update, hot |-> names that took part in a backward pass  *)
(* since then, saved |-> parameters, stack |-> parameters at the entry of  *)
(* the scopes that are open].                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Idx(s) == 1..Len(s)
Eager(x) == IF x = x THEN x ELSE Assert(FALSE, "not a value")
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE SumTo(f, n - 1) + f[n]
Total(f) == SumTo(f, Len(f))
Map2(Op(_, _), A, B) == [r \in Idx(A) |-> [j \in Idx(A[r]) |-> Op(A[r][j], B[r][j])]]
Plus(A, B) == LET op(x, y) == x + y IN Map2(op, A, B)
Times(A, B) == LET op(x, y) == x * y IN Map2(op, A, B)
Zeros(A) == [r \in Idx(A) |-> [j \in Idx(A[r]) |-> 0]]
IsZero(A) == \A r \in Idx(A) : \A j \in Idx(A[r]) : A[r][j] = 0
ByCol(Op(_, _), A, p) == [r \in Idx(A) |-> [j \in Idx(A[r]) |-> Op(A[r][j], p[1][j])]]
\* the sum of the rows, as wide as the parameter p
ColSum(A, p) == <<[j \in Idx(p[1]) |-> Total([r \in Idx(A) |-> A[r][j]])]>>

RECURSIVE Fwd(_, _, _, _)
Fwd(e, P, X, train) ==
  CASE e.k = "in" -> X[e.i]
    [] e.k = "rows" -> [r \in Idx(X[e.i]) |-> P[e.p][X[e.i][r][1] + 1]]
    [] e.k = "lin" ->
         LET A == Eager(Fwd(e.s[1], P, X, train))  W == P[e.W]
         IN [r \in Idx(A) |-> [o \in Idx(W) |-> Total([j \in Idx(W[o]) |-> A[r][j] * W[o][j]]) + (IF e.b = "" THEN 0 ELSE P[e.b][1][o])]]
    [] e.k = "scale" -> LET op(x, y) == x * y IN ByCol(op, Eager(Fwd(e.s[1], P, X, train)), P[e.p])
    [] e.k = "shift" -> LET op(x, y) == x + y IN ByCol(op, Eager(Fwd(e.s[1], P, X, train)), P[e.p])
    [] e.k = "mul" -> Times(Eager(Fwd(e.s[1], P, X, train)), Eager(Fwd(e.s[2], P, X, train)))
    [] e.k = "add" -> Plus(Eager(Fwd(e.s[1], P, X, train)), Eager(Fwd(e.s[2], P, X, train)))
    [] e.k = "relu" -> LET A == Eager(Fwd(e.s[1], P, X, train)) IN [r \in Idx(A) |-> [j \in Idx(A[r]) |-> IF A[r][j] > 0 THEN A[r][j] ELSE 0]]
    [] e.k = "mode" -> LET A == Eager(Fwd(e.s[1], P, X, train)) IN [r \in Idx(A) |-> [j \in Idx(A[r]) |-> A[r][j] * (IF train THEN e.a ELSE e.b)]]

\* add what the gradient d of e's result contributes to acc = [x |-> gradients of the inputs, p |-> of the parameters]
RECURSIVE Back(_, _, _, _, _)
Back(e, P, X, d, acc) ==
  LET ToP(a, nm, v) == Eager([a EXCEPT !.p[nm] = Plus(a.p[nm], v)])
      arg(j) == Eager(Fwd(e.s[j], P, X, TRUE))
  IN CASE e.k = "in" -> Eager([acc EXCEPT !.x[e.i] = Plus(acc.x[e.i], d)])
       [] e.k = "rows" ->
            ToP(acc, e.p, [q \in Idx(P[e.p]) |-> [j \in Idx(P[e.p][q]) |-> Total([r \in Idx(d) |-> IF X[e.i][r][1] + 1 = q THEN d[r][j] ELSE 0])]])
       [] e.k = "lin" ->
            LET A == arg(1)  W == P[e.W]
                a1 == ToP(acc, e.W, [o \in Idx(W) |-> [j \in Idx(W[o]) |-> Total([r \in Idx(A) |-> d[r][o] * A[r][j]])]])
                a2 == IF e.b = "" THEN a1 ELSE ToP(a1, e.b, ColSum(d, P[e.b]))
            IN Back(e.s[1], P, X, Eager([r \in Idx(d) |-> [j \in Idx(W[1]) |-> Total([o \in Idx(W) |-> d[r][o] * W[o][j]])]]), a2)
       [] e.k = "scale" ->
            LET op(x, y) == x * y IN Back(e.s[1], P, X, Eager(ByCol(op, d, P[e.p])), ToP(acc, e.p, ColSum(Times(d, arg(1)), P[e.p])))
       [] e.k = "shift" -> Back(e.s[1], P, X, d, ToP(acc, e.p, ColSum(d, P[e.p])))
       [] e.k = "mul" -> Back(e.s[2], P, X, Eager(Times(d, arg(1))), Back(e.s[1], P, X, Eager(Times(d, arg(2))), acc))
       [] e.k = "add" -> Back(e.s[2], P, X, d, Back(e.s[1], P, X, d, acc))
       [] e.k = "relu" -> LET A == arg(1) IN Back(e.s[1], P, X, Eager([r \in Idx(d) |-> [j \in Idx(d[r]) |-> IF A[r][j] > 0 THEN d[r][j] ELSE 0]]), acc)
       [] e.k = "mode" -> Back(e.s[1], P, X, Eager([r \in Idx(d) |-> [j \in Idx(d[r]) |-> d[r][j] * e.a]]), acc)

\* names of the parameters an expression computes with
RECURSIVE Names(_)
Names(e) ==
  (IF e.k \in {"rows", "scale", "shift"} THEN {e.p} ELSE IF e.k = "lin" THEN {e.W} \cup (IF e.b = "" THEN {} ELSE {e.b}) ELSE {})
  \cup (IF e.k \in {"in", "rows"} THEN {} ELSE UNION {Names(e.s[j]) : j \in Idx(e.s)})
RECURSIVE Reads(_)
Reads(e) == IF e.k = "in" THEN {e.i} ELSE IF e.k = "rows" THEN {} ELSE UNION {Reads(e.s[j]) : j \in Idx(e.s)}
NamesOf(M) == UNION {Names(M[j]) : j \in Idx(M)}
\* does an expression compute with anything that has gradients?
Differentiable(e, frozen) == Reads(e) # {} \/ Names(e) \ frozen # {}

NoGrad(P) == [nm \in DOMAIN P |-> Zeros(P[nm])]
Outputs(M, P, X, train) == [j \in Idx(M) |-> Eager(Fwd(M[j], P, X, train))]
RECURSIVE BackFrom(_, _, _, _, _, _)
BackFrom(j, M, P, X, ds, acc) == IF j > Len(M) THEN acc ELSE BackFrom(j + 1, M, P, X, ds, Back(M[j], P, X, ds[j], acc))
Grads(M, P, X, ds) == BackFrom(1, M, P, X, ds, [x |-> [q \in Idx(X) |-> Zeros(X[q])], p |-> NoGrad(P)])

\* ------------------------------------------------------------ transitions
Fresh(P) == [p |-> P, g |-> NoGrad(P), hot |-> {}, saved |-> P, stack |-> <<>>]
Accumulate(s, M, gp, frozen) ==
  [s EXCEPT !.g = [nm \in DOMAIN s.p |-> IF nm \in frozen THEN s.g[nm] ELSE Plus(s.g[nm], gp[nm])],
            !.hot = s.hot \cup (NamesOf(M) \ frozen)]
\* the optimizer of the recordings: one step against the sign of the gradient
Minus(A, B) == LET op(x, y) == IF y > 0 THEN x - 1 ELSE IF y < 0 THEN x + 1 ELSE x IN Map2(op, A, B)
Update(s) == [s EXCEPT !.p = [nm \in DOMAIN s.p |-> Minus(s.p[nm], s.g[nm])], !.g = NoGrad(s.p), !.hot = {}]
Save(s) == [s EXCEPT !.saved = s.p]
Load(s) == [s EXCEPT !.p = s.saved]
Enter(s, Q) == [s EXCEPT !.stack = Append(s.stack, s.p), !.p = [nm \in DOMAIN s.p |-> IF nm \in DOMAIN Q THEN Q[nm] ELSE s.p[nm]]]
Exit(s) == [s EXCEPT !.stack = SubSeq(s.stack, 1, Len(s.stack) - 1), !.p = s.stack[Len(s.stack)]]
=============================================================================
