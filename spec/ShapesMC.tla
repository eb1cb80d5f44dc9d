------------------------------ MODULE ShapesMC ------------------------------
(***************************************************************************)
(* Design checks of the inference, over every expression of a small        *)
(* grammar with every subset of (right or wrong) dimensions given, with    *)
(* and without sample data:                                                *)
(*  - when it succeeds on an input, all widths fit and every dimension     *)
(*    that a node has is set to the width that flows there;                *)
(*  - it keeps every dimension that was given;                             *)
(*  - doing it again, with or without data, changes nothing;               *)
(*  - given the whole truth it succeeds, and leaving out input widths      *)
(*    still gives the same when there is input.                            *)
(***************************************************************************)
EXTENDS Shapes, FiniteSets
CONSTANTS Widths, MaxTree
VARIABLES phase, tree, dims, x, y
vars == <<phase, tree, dims, x, y>>
L(n) == [k |-> "linear", n |-> n, s |-> <<>>]
So(n) == [k |-> "softmax", n |-> n, s |-> <<>>]
No(n) == [k |-> "norm", n |-> n, s |-> <<>>]
Id(n) == [k |-> "id", n |-> n, s |-> <<>>]
Win(n) == [k |-> "window", n |-> n, s |-> <<>>, size |-> 1]
C(k, n, s) == [k |-> k, n |-> n, s |-> s]
\* leaves are nodes 1 and 2, compositions 3, 4, 5
Trees == <<
  L(1), C("chain", 3, <<L(1), L(2)>>), C("add", 3, <<L(1), L(2)>>), C("concat", 3, <<L(1), L(2)>>), C("residual", 3, <<L(1)>>),
  C("chain", 3, <<L(1), No(2)>>), C("chain", 3, <<L(1), So(2)>>), C("chain", 3, <<Win(1), L(2)>>), C("with_array", 3, <<L(1)>>),
  C("chain", 3, <<C("residual", 4, <<L(1)>>), L(2)>>), C("residual", 4, <<C("chain", 3, <<L(1), L(2)>>)>>),
  C("chain", 5, <<C("concat", 3, <<L(1), L(1)>>), L(2)>>), C("chain", 5, <<C("add", 3, <<L(1), L(1)>>), So(2)>>),
  C("chain", 5, <<L(1), C("concat", 3, <<L(2), Id(4)>>)>>), C("with_list", 5, <<C("map_list", 4, <<C("chain", 3, <<L(1), So(2)>>)>>)>>),
  C("add", 5, <<C("chain", 3, <<L(1), No(2)>>), C("chain", 4, <<L(1), No(2)>>)>>),
  C("chain", 5, <<C("with_list", 4, <<L(1)>>), C("with_reshape", 3, <<L(2)>>)>>)>>
E == Trees[tree]
IsLeaf(q) == q.s = <<>>
Leaf(n) == CHOOSE q \in Nodes(E) : q.n = n
HasLeaf(n) == \E q \in Nodes(E) : q.n = n /\ IsLeaf(q)
Blank(q) == IF q.k \in {"linear", "softmax", "norm"} THEN {[nO |-> a, nI |-> b] : a \in Widths \cup {0}, b \in Widths \cup {0}} ELSE {[nO |-> None, nI |-> None]}
LeafDims(n) == IF HasLeaf(n) THEN (IF Leaf(n).k = "norm" THEN {d \in Blank(Leaf(n)) : d.nO = d.nI} ELSE Blank(Leaf(n))) ELSE {[nO |-> None, nI |-> None]}
Start == [n \in 1..5 |-> IF n <= 2 THEN dims[n] ELSE [nO |-> None, nI |-> None]]
D0 == Built(E, Start)
VarInit == phase = "start" /\ tree = 1 /\ dims = <<>> /\ x = 0 /\ y = 0
Choose == phase = "start" /\ phase' = "tree" /\ tree' \in 1..MaxTree /\ x' \in Widths \cup {0} /\ UNCHANGED <<dims, y>>
Fill == /\ phase = "tree" /\ phase' = "done"
        /\ \E a \in LeafDims(1), b \in LeafDims(2) : dims' = <<a, b>>
        /\ y' \in Widths \cup {0}
        /\ UNCHANGED <<tree, x>>
Next == Choose \/ Fill
Spec == VarInit /\ [][Next]_vars
W(w) == IF w = 0 THEN <<>> ELSE <<w>>
R == Infer(E, D0, W(x), W(y))
Done == phase = "done"
AllFits == (Done /\ x # 0 /\ R.v = "ok") =>
   /\ Fits(E, R.D, x)[1] /\ <<Fits(E, R.D, x)[2]>> = R.o
   /\ \A q \in Nodes(E) : R.D[q.n].nI # 0
   \* (a concatenation does not know the width of parts without nO)
   /\ \A q \in Nodes(E) : R.D[q.n].nO # 0 \/ (q.k = "concat" /\ \E j \in 1..Len(q.s) : R.D[q.s[j].n].nO = None)
   /\ (R.D[E.n].nO = None \/ <<R.D[E.n].nO>> = R.o) /\ R.D[E.n].nI \in {None, x}
Keeps == (Done /\ R.v = "ok") => \A n \in 1..5 : (D0[n].nO > 0 => R.D[n].nO = D0[n].nO) /\ (D0[n].nI > 0 => R.D[n].nI = D0[n].nI)
Again == (Done /\ R.v = "ok") =>
   /\ Infer(E, R.D, W(x), W(y)) = R
   /\ Infer(E, R.D, <<>>, <<>>).v = "ok" /\ Infer(E, R.D, <<>>, <<>>).D = R.D
\* without input widths: the same, if there is input
Less == (Done /\ x # 0 /\ R.v = "ok") =>
   LET D == [n \in 1..5 |-> IF n > 2 \/ dims[n].nI = None THEN Start[n] ELSE IF HasLeaf(n) /\ Leaf(n).k = "norm" THEN [nO |-> 0, nI |-> 0] ELSE [dims[n] EXCEPT !.nI = 0]]
       q == Infer(E, Built(E, D), W(x), W(y))
   IN (y = 0 \/ \A n \in 1..2 : dims[n].nO # 0 /\ (HasLeaf(n) => Leaf(n).k # "norm")) => (q.v = "ok" /\ q.o = R.o /\ q.D = R.D)
\* widths that fit are accepted
Complete == (Done /\ x # 0 /\ \A n \in 1..2 : dims[n].nO # 0 /\ dims[n].nI # 0) =>
   LET f == Fits(E, Start, x) IN IF f[1] THEN y \in {0, f[2]} => R.v = "ok" ELSE R.v # "ok"
\* no guesses: without data, something that is not given is missed
NoGuess == (Done /\ x = 0 /\ y = 0 /\ \E n \in 1..2 : HasLeaf(n) /\ (dims[n].nO = 0 \/ dims[n].nI = 0)) => R.v # "ok"
=============================================================================
