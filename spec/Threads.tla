------------------------------- MODULE Threads -------------------------------
(***************************************************************************)
(* Threads that create models, enter and leave scopes and run models (C22).*)
(*                                                                         *)
(* A thread has settings of its own: the backend (ops), the functions      *)
(* bound to operators (on) and whether data is validated (val).  A new     *)
(* thread has the default settings, whatever its creator is inside of.     *)
(* A model belongs to one thread at a time: parameters W and b, gradients, *)
(* the inputs of the passes that may be returned, and the parameters that  *)
(* temporary ones have replaced.  Nothing a thread does changes the        *)
(* settings of another or a model it does not use; identities are never    *)
(* given twice.                                                            *)
(***************************************************************************)
EXTENDS Values

Default == [ops |-> "numpy", on |-> <<"", "", "">>, val |-> FALSE]
NewThread == [set |-> Default, stack |-> <<>>]
Put(s, k, v) == CASE k = "ops" -> [s EXCEPT !.ops = v] [] k = "on" -> [s EXCEPT !.on = v] [] k = "val" -> [s EXCEPT !.val = v]
Get(s, k) == CASE k = "ops" -> s.ops [] k = "on" -> s.on [] k = "val" -> s.val
Enter(th, k, v) == [set |-> Put(th.set, k, v), stack |-> Append(th.stack, [k |-> k, was |-> th.set])]
Top(th) == th.stack[Len(th.stack)]
Leave(th) == [set |-> Put(th.set, Top(th).k, Get(Top(th).was, Top(th).k)), stack |-> SubSeq(th.stack, 1, Len(th.stack) - 1)]
SetOps(th, v) == [th EXCEPT !.set.ops = v]

\* ------------------------------------------------------------------- models
NoGrad(W) == [W |-> [o \in 1..Len(W) |-> Zeros(Len(W[o]))], b |-> Zeros(Len(W))]
NewModel(W, b) == [W |-> W, b |-> b, g |-> NoGrad(W), xs |-> <<>>, stack |-> <<>>]
Out(m, X) == [i \in 1..Len(X) |-> [o \in 1..Len(m.W) |-> Dot(X[i], m.W[o]) + m.b[o]]]
Begin(m, X) == [m EXCEPT !.xs = Append(@, X)]
Back(m, j, dY) == LET X == m.xs[j] IN
  [m EXCEPT !.g = [W |-> RowsAdd(@.W, TMul(dY, X, Len(m.W), Len(m.W[1]))), b |-> RowAdd(@.b, ColSum(dY, Len(m.W)))]]
BackX(m, dY) == Mul(dY, m.W, Len(m.W[1]))
Finish(m) == [m EXCEPT !.W = RowsSub(@, m.g.W), !.b = RowSub(@, m.g.b), !.g = NoGrad(m.W)]
Lend(m, W, b) == [m EXCEPT !.stack = Append(@, [W |-> m.W, b |-> m.b]), !.W = W, !.b = b]
Restore(m) == LET p == m.stack[Len(m.stack)] IN [m EXCEPT !.W = p.W, !.b = p.b, !.stack = SubSeq(@, 1, Len(@) - 1)]
\* a copy has the parameters, and the gradients
CopyOf(m) == [m EXCEPT !.xs = <<>>, !.stack = <<>>]
=============================================================================
