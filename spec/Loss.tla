-------------------------------- MODULE Loss --------------------------------
(***************************************************************************)
(* Losses and their gradients (C16), in fixed point.                       *)
(*                                                                         *)
(* Truths come in a form: "ids" (class numbers from 0), "strings" (names   *)
(* as sequences of characters, perhaps with a prefix that negates them)    *)
(* or "rows".  missing is <<>> or <<the value that means unknown>>.        *)
(***************************************************************************)
EXTENDS Fixed

Starts(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
IndexOf(s, x) == CHOOSE j \in 1..Len(s) : s[j] = x
\* what a truth says: a class, not a class, nothing, or a row
Meaning(o, t) ==
  IF o.form = "rows"
  THEN LET top == CHOOSE j \in 1..Len(t) : (\A q \in 1..Len(t) : t[q] <= t[j]) /\ (\A q \in 1..(j - 1) : t[q] < t[j])
       IN IF o.missing = <<top - 1>> THEN [k |-> "nothing"] ELSE [k |-> "row", r |-> t]
  ELSE IF o.missing = <<t>> THEN [k |-> "nothing"]
  ELSE IF o.form = "ids" THEN [k |-> "class", c |-> t + 1]
  ELSE IF o.prefix # <<>> /\ Starts(o.prefix, t) THEN [k |-> "not", c |-> IndexOf(o.names, SubSeq(t, Len(o.prefix) + 1, Len(t)))]
  ELSE [k |-> "class", c |-> IndexOf(o.names, t)]

\* distribution of class c of n, smoothed
Smooth(c, n, s) == [j \in 1..n |-> IF j = c THEN S - s ELSE IF s = 0 THEN 0 ELSE s \div (n - 1)]
\* gradient of one row of guesses
GradRow(o, g, t) ==
  LET m == Meaning(o, t) IN
  [j \in 1..Len(g) |->
    CASE m.k = "nothing" -> 0
      [] m.k = "not" -> IF j = m.c THEN g[j] ELSE 0
      [] m.k = "class" -> g[j] - Smooth(m.c, Len(g), o.smooth)[j]
      [] m.k = "row" -> g[j] - m.r[j]]
Over(rows, n) == [i \in 1..Len(rows) |-> [j \in 1..Len(rows[i]) |-> IF n = 1 THEN rows[i][j] ELSE FDiv(rows[i][j], n * S)]]
\* gradient of a batch
Grad(o, G, T) == Over([i \in 1..Len(G) |-> GradRow(o, G[i], T[i])], IF o.norm /\ Len(G) > 0 THEN Len(G) ELSE 1)
\* of a batch of sequences: the batch size is the number of sequences
SeqGrad(o, Gs, Ts) == [b \in 1..Len(Gs) |-> Over(Grad([o EXCEPT !.norm = FALSE], Gs[b], Ts[b]), IF o.norm THEN Len(Gs) ELSE 1)]
Squares(rows) == FSum([i \in 1..Len(rows) |-> FSum([j \in 1..Len(rows[i]) |-> FMul(rows[i][j], rows[i][j])])])

L2Grad(G, T, norm) == Over([i \in 1..Len(G) |-> [j \in 1..Len(G[i]) |-> G[i][j] - T[i][j]]], IF norm /\ Len(G) > 0 THEN Len(G) ELSE 1)

\* cosine distance: 1 - cos per row, and its derivative with respect to the guess
Norm(r) == FSqrt(FDot(r, r))
Cos(g, t) == FDiv(FDot(g, t), FMul(Norm(g), Norm(t)))
IsZero(r) == \A j \in 1..Len(r) : r[j] = 0
CosGradRow(g, t) ==
  LET n == FMul(Norm(g), Norm(t))  c == Cos(g, t)  q == FDot(g, g)
  IN [j \in 1..Len(g) |-> FDiv(FMul(c, g[j]), q) - FDiv(t[j], n)]
CosGrad(G, T, norm, zeros) ==
  Over([i \in 1..Len(G) |-> IF zeros /\ IsZero(T[i]) THEN [j \in 1..Len(G[i]) |-> 0] ELSE CosGradRow(G[i], T[i])], IF norm /\ Len(G) > 0 THEN Len(G) ELSE 1)
CosLoss(G, T, norm, zeros) ==
  LET s == FSum([i \in 1..Len(G) |-> IF zeros /\ IsZero(T[i]) THEN 0 ELSE FAbs(Cos(G[i], T[i]) - S)])
  IN IF norm /\ Len(G) > 0 THEN FDiv(s, Len(G) * S) ELSE s

\* which guesses and truths are refused
Outside(rows) == \E i \in 1..Len(rows) : \E j \in 1..Len(rows[i]) : rows[i][j] < 0 \/ rows[i][j] > S
Refused(o, G, T) ==
  \/ Outside(G)
  \/ o.form = "rows" /\ (Outside(T) \/ o.smooth # 0)
  \/ o.form # "rows" /\ o.smooth # 0 /\ (o.n < 2 \/ o.smooth >= FDiv((o.n - 1) * S, o.n * S))
=============================================================================
