------------------------------- MODULE Arrays -------------------------------
(***************************************************************************)
(* Arrays and the general operations on them: matrix products in every     *)
(* orientation, affine maps, tiling, allocation, conversion, reshaping,    *)
(* one-hot encoding, widths of batches, and recursive conversion of nested *)
(* containers.                                                             *)
(*                                                                         *)
(* An array is [s |-> shape, v |-> elements in row-major order, t |-> data *)
(* type].  Elements are integers (multiplied by 64 for the one-hot         *)
(* encoding with label smoothing).  Refused is the result of a call that   *)
(* has to be refused; AnyWay marks what is left open.                      *)
(***************************************************************************)
EXTENDS Values
Refused == [refused |-> TRUE]
IsRefused(r) == "refused" \in DOMAIN r
Arr(s, v, t) == [s |-> s, v |-> v, t |-> t]
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE s[1] * Prod(Tail(s))
IsArr(a) == Len(a.v) = Prod(a.s)

At(a, r, q) == a.v[((r - 1) * a.s[2]) + q]
Mat(n, m, t, F(_, _)) == Arr(<<n, m>>, [j \in 1..(n * m) |-> F(((j - 1) \div m) + 1, ((j - 1) % m) + 1)], t)
Turn(a) == LET F(r, q) == At(a, q, r) IN Mat(a.s[2], a.s[1], a.t, F)

Gemm(x, y, t1, t2) ==
  LET A == IF t1 THEN Turn(x) ELSE x
      B == IF t2 THEN Turn(y) ELSE y
      F(r, q) == Sum([k \in 1..A.s[2] |-> At(A, r, k) * At(B, k, q)])
  IN IF A.s[2] # B.s[1] THEN Refused ELSE Mat(A.s[1], B.s[2], x.t, F)

\* an output array has to have the shape and data type of the result
FitsOut(r, out) == out.s = r.s /\ out.t = r.t

Affine(x, W, b) ==
  IF x.s[2] # W.s[2] \/ b.s[1] # W.s[1] THEN Refused
  ELSE LET F(r, o) == b.v[o] + Sum([k \in 1..x.s[2] |-> At(x, r, k) * At(W, o, k)]) IN Mat(x.s[1], W.s[1], x.t, F)

Tile(x, n) == LET F(r, q) == At(x, r, ((q - 1) % x.s[2]) + 1) IN Mat(x.s[1], x.s[2] * n, x.t, F)

Alloc(s, t) == Arr(s, Zeros(Prod(s)), t)

\* conversion keeps shape and values; a data type that is not named is the source's
Convert(a, t) == Arr(a.s, a.v, IF t = "" THEN a.t ELSE t)

\* one -1 stands for the size that the others leave
Known(s) == Prod(SelectSeq(s, LAMBDA k : k # -1))
Reshape(a, s) ==
  LET open == Len(SelectSeq(s, LAMBDA k : k = -1)) IN
  IF open = 0 THEN (IF Prod(s) = Len(a.v) THEN Arr(s, a.v, a.t) ELSE Refused)
  ELSE IF open > 1 \/ Known(s) = 0 \/ Len(a.v) % Known(s) # 0 THEN Refused
  ELSE Arr([j \in 1..Len(s) |-> IF s[j] = -1 THEN Len(a.v) \div Known(s) ELSE s[j]], a.v, a.t)

\* rows of different lengths side by side, zeros after them
Insert(n, w, rows, t) == LET F(r, q) == IF r <= Len(rows) /\ q <= Len(rows[r]) THEN rows[r][q] ELSE 0 IN Mat(n, w, t, F)

\* One-hot rows; with smoothing sm/64 the other classes share sm equally.
OneHot(y, n, sm) ==
  LET rest == IF sm = 0 THEN 0 ELSE sm \div (n - 1)
      w == Len(y.v) * n
  IN IF n < 1 \/ sm < 0 \/ (sm > 0 /\ n = 1) THEN Refused
     ELSE IF n > 1 /\ sm * n >= 64 * (n - 1) THEN Refused
     ELSE IF \E j \in 1..Len(y.v) : y.v[j] >= n THEN Refused
     ELSE Arr(y.s \o <<n>>,
              [j \in 1..w |-> IF y.v[((j - 1) \div n) + 1] = (j - 1) % n THEN 64 - sm ELSE rest], "float32")
Classes(y) == SMax(y.v) + 1

(***************************************************************************)
(* Nested containers: [k |-> "arr", a] an array, [k |-> "other", o] any    *)
(* other leaf, [k |-> "list" | "tuple", q |-> members],                    *)
(* [k |-> "dict", n |-> keys, q |-> values], [k |-> "args", q |-> values,  *)
(* n |-> keywords, p |-> their values], [k |-> "ragged" | "padded", a].    *)
(***************************************************************************)
RECURSIVE Width(_)
Width(x) ==
  CASE x.k \in {"arr", "ragged", "padded"} ->
         (IF x.a.s = <<>> THEN 0 ELSE IF Len(x.a.s) = 1 THEN SMax(x.a.v) + 1 ELSE x.a.s[Len(x.a.s)])
    [] x.k \in {"list", "tuple"} -> IF x.q = <<>> THEN 0 ELSE Width(x.q[1])
    [] OTHER -> -1   \* has no width: refused

\* every array plus d, everything else as it is, in containers of the same kind
RECURSIVE ConvertAll(_, _)
ConvertAll(x, d) ==
  LET all(q) == [j \in 1..Len(q) |-> ConvertAll(q[j], d)] IN
  CASE x.k = "arr" -> [x EXCEPT !.a.v = [j \in 1..Len(x.a.v) |-> x.a.v[j] + d]]
    [] x.k \in {"list", "tuple", "dict"} -> [x EXCEPT !.q = all(x.q)]
    [] x.k = "args" -> [x EXCEPT !.q = all(x.q), !.p = all(x.p)]
    [] OTHER -> x
\* the arrays of a nested container, in order
RECURSIVE Leaves(_)
Leaves(x) ==
  LET RECURSIVE cat(_)
      cat(q) == IF q = <<>> THEN <<>> ELSE Leaves(q[1]) \o cat(Tail(q))
  IN
  CASE x.k = "arr" -> <<x.a>>
    [] x.k \in {"list", "tuple", "dict"} -> cat(x.q)
    [] x.k = "args" -> cat(x.q \o x.p)
    [] OTHER -> <<>>
=============================================================================
