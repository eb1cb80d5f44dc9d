------------------------------ MODULE SmoothMC ------------------------------
(***************************************************************************)
(* Design checks of Smooth: the specified gradients are the slopes of the  *)
(* specified functions (central differences, for every layer, parameter    *)
(* and input of a table of instances over a grid of inputs), softmax and   *)
(* attention give distributions per row and per sequence, normalized rows  *)
(* have mean 0 and variance 1, similarity is symmetric and at most 1.      *)
(***************************************************************************)
EXTENDS Smooth
CONSTANTS Small, DSmall, MaxLayer
VARIABLES phase, l, x, dy, at
vars == <<phase, l, x, dy, at>>
Q4 == S \div 4
W22 == <<<<S, -(S \div 2)>>, <<3 * Q4, S>>>>
W32 == <<<<S, -(S \div 2)>>, <<3 * Q4, S>>, <<-S, Q4>>>>
B2 == <<S \div 64, -((3 * S) \div 64)>>
B3 == <<S \div 64, -((3 * S) \div 64), S>>
D(f, p) == [k |-> "dense", a |-> [f |-> f, p |-> p], W |-> W22, b |-> B2]
Table == <<
  D("mish", <<20 * S>>), D("gelu", <<>>), D("swish", <<>>), D("hard_swish", <<>>), D("hard_swish_mobilenet", <<>>),
  D("dish", <<>>), D("clipped_linear", <<13107, S \div 2, 0, S>>), D("sigmoid", <<>>), D("identity", <<>>), D("relu", <<>>),
  [k |-> "softmax", W |-> W32, b |-> B3, t |-> 2 * S, norm |-> FALSE],
  [k |-> "multisoftmax", W |-> W32, b |-> B3, parts |-> <<2, 1>>],
  [k |-> "layernorm", G |-> <<S, -2 * S>>, b |-> B2],
  [k |-> "softmax_activation"],
  [k |-> "attention", Q |-> <<S, -(S \div 2)>>, key |-> <<>>],
  [k |-> "attention", Q |-> <<S, -(S \div 2)>>, key |-> <<D("swish", <<>>)>>],
  [k |-> "cauchy", W |-> <<S>>]>>
X == <<<<x[1], x[2]>>, <<x[3], Q4>>, <<-Q4, x[1]>>>>
Lens == <<2, 0, 1>>
Out(ll, XX) == LET lin == Affine(XX, ll.W, ll.b) IN
               IF ll.k = "softmax" THEN MapM(LAMBDA z : FDiv(z, ll.t), lin)
               ELSE IF ll.k = "multisoftmax" THEN lin ELSE Fwd(ll, XX, Lens, TRUE)
Y0 == Eager(Fwd(Table[l], X, Lens, TRUE))
DY == [r \in Idx(Y0) |-> [j \in Idx(Y0[r]) |-> IF r = 1 THEN dy ELSE IF j = 1 THEN S \div 2 ELSE -Q4]]
Val(ll, XX) == LET y == Out(ll, XX) IN FSum([r \in Idx(y) |-> FDot(y[r], DY[r])])
Init == phase = "start" /\ l = 1 /\ x = <<0, 0, 0>> /\ dy = 0 /\ at = <<"x", 1, 1>>
Places(ll) == {<<"x", r, j>> : r \in 1..2, j \in 1..2}
              \cup (IF ll.k \in {"dense", "softmax", "multisoftmax"} THEN {<<"W", o, j>> : o \in 1..2, j \in 1..2} \cup {<<"b", 1, j>> : j \in 1..2} ELSE {})
              \cup (IF ll.k = "layernorm" THEN {<<"G", 1, 1>>, <<"G", 1, 2>>, <<"b", 1, 2>>} ELSE {})
              \cup (IF ll.k = "attention" THEN {<<"Q", 1, 1>>, <<"Q", 1, 2>>} \cup (IF ll.key # <<>> THEN {<<"K", 1, 2>>, <<"KB", 1, 2>>} ELSE {}) ELSE {})
              \cup (IF ll.k = "cauchy" THEN {<<"C", 1, 1>>} ELSE {})
Choose == /\ phase = "start" /\ phase' = "layer" /\ l' \in 1..MaxLayer /\ x' \in [1..3 -> Small] /\ UNCHANGED <<dy, at>>
Pick == /\ phase = "layer" /\ phase' = "slope" /\ dy' \in DSmall /\ at' \in Places(Table[l]) /\ UNCHANGED <<l, x>>
Next == Choose \/ Pick
Spec == Init /\ [][Next]_vars
H == 4096
MovedL(e) == LET t == Table[l] IN
  CASE at[1] = "x" -> t
    [] at[1] = "W" -> [t EXCEPT !.W[at[2]][at[3]] = @ + e]
    [] at[1] = "b" -> [t EXCEPT !.b[at[3]] = @ + e]
    [] at[1] = "G" -> [t EXCEPT !.G[at[3]] = @ + e]
    [] at[1] = "Q" -> [t EXCEPT !.Q[at[3]] = @ + e]
    [] at[1] = "K" -> [t EXCEPT !.key[1].W[at[2]][at[3]] = @ + e]
    [] at[1] = "KB" -> [t EXCEPT !.key[1].b[at[3]] = @ + e]
    [] at[1] = "C" -> [t EXCEPT !.W[1] = @ + e]
MovedX(e) == IF at[1] = "x" THEN [X EXCEPT ![at[2]][at[3]] = @ + e] ELSE X
Index == CASE at[1] = "W" -> 1 [] at[1] = "b" -> 2 [] at[1] = "G" -> 1 [] at[1] = "Q" -> 1 [] at[1] = "K" -> 2 [] at[1] = "KB" -> 3 [] at[1] = "C" -> 1 [] OTHER -> 0
\* kinks and nearly constant rows are left out, with their surroundings
Wide(ll) == LET far(a, A) == \A r \in Idx(A) : \A j \in Idx(A[r]) : \A z \in Kinks(a) : FAbs(A[r][j] - z) > 3 * H
            IN CASE ll.k = "dense" -> far(ll.a, Affine(X, ll.W, ll.b))
                 [] ll.k = "layernorm" -> \A r \in Idx(X) : NVar(X[r]) >= S \div 4
                 [] OTHER -> TRUE
SlopeOK == (phase = "slope" /\ Wide(Table[l])) =>
  LET b == Back(Table[l], X, Lens, DY)
      g == IF at[1] = "x" THEN b.dx[at[2]][at[3]] ELSE b.g[Index][at[2]][at[3]]
  IN FAbs((Val(MovedL(H), MovedX(H)) - Val(MovedL(-H), MovedX(-H))) * 8 - g) <= 700 + FAbs(g) \div 32
About1(n) == FAbs(n - S) <= 60
Shapes == phase = "layer" =>
  LET t == Table[l] IN
  CASE t.k = "softmax" -> \A r \in Idx(Y0) : About1(FSum(Y0[r]))
    [] t.k = "multisoftmax" -> \A r \in Idx(Y0) : About1(Y0[r][1] + Y0[r][2]) /\ About1(Y0[r][3])
    [] t.k = "softmax_activation" -> \A r \in Idx(Y0) : About1(FSum(Y0[r]))
    [] t.k = "attention" -> (LET p == Attention(t, X, Lens)
                                 alone == Attention(t, SubSeq(X, 1, 2), <<2>>)
                             IN About1(p[1] + p[2]) /\ About1(p[3]) /\ SubSeq(p, 1, 2) = alone)
    [] t.k = "layernorm" -> \A r \in Idx(X) : Wide(t) => (LET h == NHat(X[r]) IN FAbs(NMean(h)) <= 100 /\ FAbs(NVar(h) - S) <= 600)
    [] t.k = "cauchy" -> \A r \in Idx(X) : Y0[r][1] <= S /\ Y0[r][1] > 0 /\ Cauchy(t.W, <<X[r][2], X[r][1]>>) = Y0[r][1] /\ Cauchy(t.W, <<x[1], x[1]>>) = S
    [] OTHER -> TRUE
=============================================================================
