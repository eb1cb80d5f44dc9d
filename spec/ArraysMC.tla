------------------------------ MODULE ArraysMC ------------------------------
(***************************************************************************)
(* Design run of Arrays, over all small matrices, vectors and containers:  *)
(* the product respects transposition, is bilinear and has the unit        *)
(* matrix, an affine map is the product plus the bias, reshaping and       *)
(* conversion can be undone, one-hot rows are distributions, conversion of *)
(* nested containers touches the leaves only and keeps their order.        *)
(***************************************************************************)
EXTENDS Arrays
CONSTANTS Vals, MaxDim, MaxCells, Classes_
VARIABLES x, y, done
vars == <<x, y, done>>
Mats(n, m) == {Arr(<<n, m>>, v, "f") : v \in [1..(n * m) -> Vals]}
Init == \E n, m, k \in 0..MaxDim : n * m <= MaxCells /\ m * k <= MaxCells /\ x = <<n, m>> /\ y = <<m, k>> /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ \E a \in Mats(x[1], x[2]), b \in Mats(y[1], y[2]) : x' = Eager(a) /\ y' = Eager(b)
Spec == Init /\ [][Next]_vars
Unit(n) == LET F(r, q) == IF r = q THEN 1 ELSE 0 IN Mat(n, n, "f", F)
Add(a, b) == Arr(a.s, RowAdd(a.v, b.v), a.t)
Product == done => LET p == Gemm(x, y, FALSE, FALSE) IN
  /\ IsArr(p) /\ p.s = <<x.s[1], y.s[2]>>
  /\ Turn(Turn(x)) = x
  /\ p = Gemm(Turn(x), y, TRUE, FALSE)
  /\ p = Gemm(x, Turn(y), FALSE, TRUE)
  /\ Turn(p) = Gemm(y, x, TRUE, TRUE)
  /\ Gemm(Unit(x.s[1]), x, FALSE, FALSE) = x
  /\ Gemm(Add(x, x), y, FALSE, FALSE) = Add(p, p)
  /\ (x.s[1] # x.s[2] => IsRefused(Gemm(x, x, FALSE, FALSE)))
Affinity == done => LET W == Turn(y)
                        b == Arr(<<W.s[1]>>, Zeros(W.s[1]), "f") IN
  Affine(x, W, b) = Gemm(x, y, FALSE, FALSE)
Shapes == done =>
  /\ Reshape(Reshape(x, <<-1>>), x.s) = x
  /\ Reshape(x, <<x.s[2], x.s[1]>>).v = x.v
  /\ IsRefused(Reshape(x, <<Len(x.v) + 1>>))
  /\ (x.s[2] > 0 => Tile(x, 1) = x /\ Tile(Tile(x, 2), 2) = Tile(x, 4))
  /\ Convert(Convert(x, "d"), "f") = x
OneHots == done => \A n \in 1..Classes_, sm \in {0, 16, 32} :
  LET ids == Arr(<<Len(x.v)>>, [j \in 1..Len(x.v) |-> Abs(x.v[j])], "i")
      r == OneHot(ids, n, sm) IN
  ~IsRefused(r) => \A j \in 1..Len(ids.v) :
     /\ \/ Sum([q \in 1..n |-> r.v[((j - 1) * n) + q]]) = 64
        \/ sm % (n - 1) # 0
     /\ \A q \in 1..n : q # ids.v[j] + 1 => r.v[((j - 1) * n) + q] < r.v[((j - 1) * n) + ids.v[j] + 1]
Leaf(a) == [k |-> "arr", a |-> a]
Nests == done => LET box == [k |-> "list", q |-> <<Leaf(x), [k |-> "args", q |-> <<Leaf(y), [k |-> "other", o |-> "s"]>>, n |-> <<"b">>, p |-> <<Leaf(x)>>],
                                                  [k |-> "dict", n |-> <<"k">>, q |-> <<[k |-> "tuple", q |-> <<Leaf(y)>>]>>]>>] IN
  /\ Leaves(box) = <<x, y, x, y>>
  /\ ConvertAll(ConvertAll(box, 3), -3) = box
  /\ Leaves(ConvertAll(box, 1)) = [j \in 1..4 |-> [Leaves(box)[j] EXCEPT !.v = [q \in 1..Len(Leaves(box)[j].v) |-> Leaves(box)[j].v[q] + 1]]]
=============================================================================
