------------------------------- MODULE Lookup -------------------------------
(***************************************************************************)
(* Embedding tables, hashed features, id remapping and sparse linear       *)
(* models (C12), on integers.                                              *)
(***************************************************************************)
EXTENDS Values, Words

\* row numbers count from 0
InTable(i, n) == i >= 0 /\ i < n
Row(table, i) == table[i + 1]
\* sum of the named rows
RECURSIVE RowSum(_, _, _, _)
RowSum(table, w, ids, k) == IF k = 0 THEN Zeros(w) ELSE Now(RowAdd(RowSum(table, w, ids, k - 1), Row(table, ids[k])))
Gather(table, w, idx) == [b \in 1..Len(idx) |-> RowSum(table, w, idx[b], Len(idx[b]))]
\* the transpose: every row of dY goes to each of the rows it was summed from, counted as often as named
Scatter(n, w, idx, dY) ==
  [r \in 1..n |-> [j \in 1..w |-> Sum([b \in 1..Len(idx) |-> Sum([k \in 1..Len(idx[b]) |-> IF idx[b][k] = r - 1 THEN dY[b][j] ELSE 0])])]]

\* the four rows of a key
HashRows(key, seed, n) == LET h == Hash128(key, seed) IN [q \in 1..4 |-> WMod(h[q], n)]

\* k-grams of keys
NGrams(n, keys) == IF n < 1 \/ n > Len(keys) THEN <<>> ELSE [j \in 1..(Len(keys) - n + 1) |-> Hash64(SubSeq(keys, j, j + n - 1))]

\* a table of pairs <<from, to>>
Remap(pairs, default, x) == IF \E p \in 1..Len(pairs) : pairs[p][1] = x
                            THEN pairs[CHOOSE p \in 1..Len(pairs) : pairs[p][1] = x][2] ELSE default

\* sparse linear: every feature has two weights per class, W is flat, positions count from 0
Slots(key, len, v1) ==
  [q \in 1..2 |-> LET h == Hash32(key, WNum(q - 1, 4))
                  IN IF v1 THEN (h[1] + 256 * h[2] + 65536 * h[3]) & (len - 1) ELSE WMod(h, len)]
Weight(slot, cl, len, v1) == IF v1 THEN slot + cl ELSE cl * len + slot
\* which example feature f belongs to
RECURSIVE Owner(_, _, _)
Owner(lens, f, b) == IF f <= lens[b] THEN b ELSE Owner(lens, f - lens[b], b + 1)
Sparse(x) ==
  LET sl == Now([f \in 1..Len(x.keys) |-> Slots(x.keys[f], x.len, x.v1)])
      ow == Now([f \in 1..Len(x.keys) |-> Owner(x.lens, f, 1)])
  IN [Y |-> [b \in 1..Len(x.lens) |-> [o \in 1..x.nO |->
               x.b[o] + Sum([f \in 1..Len(x.keys) |-> IF ow[f] # b THEN 0
                             ELSE x.vals[f] * (x.W[1 + Weight(sl[f][1], o - 1, x.len, x.v1)] + x.W[1 + Weight(sl[f][2], o - 1, x.len, x.v1)])])]],
      dW |-> [p \in 1..(x.nO * x.len) |->
               Sum([f \in 1..Len(x.keys) |-> Sum([o \in 1..x.nO |-> Sum([q \in 1..2 |->
                  IF Weight(sl[f][q], o - 1, x.len, x.v1) = p - 1 THEN x.vals[f] * x.dY[ow[f]][o] ELSE 0])])])],
      db |-> ColSum(x.dY, x.nO)]
=============================================================================
