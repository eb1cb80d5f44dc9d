-------------------------------- MODULE Shapes --------------------------------
(***************************************************************************)
(* Dimensions of composed models and their inference (C18).                *)
(*                                                                         *)
(* An expression is a record with a kind k, the number n of its node and   *)
(* its parts s.  D maps node numbers to dimensions [nO, nI]: None for one  *)
(* the node does not have, 0 for one that is not set.  Widths of data:     *)
(* <<>> for no data, <<w>> for a batch (None for one without width), and   *)
(* <<v, w>> for a pair of batches.                                         *)
(*                                                                         *)
(* Infer(e, D, x, y): initialization from a batch of width x and outputs of *)
(* width y: [v, D, o], v is "ok", "missing" or "conflict", o the width of  *)
(* the output for x.                                                       *)
(*                                                                         *)
(* Policy: X sets input widths, layer by layer; Y is for the output widths *)
(* that are not given.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

None == 0 - 1
Num(w) == IF Len(w) = 1 THEN w[1] ELSE 0
\* ----------------------------------------------------------- construction
Copies == {"with_array", "with_array2d", "with_list", "with_padded", "with_cpu", "resizable"}
Bare == {"with_ragged", "with_flatten", "with_flatten2", "map_list", "getitem"}
NoDims(k) == k \in {"id", "window"} \cup Bare
\* the dimensions of the nodes of e, added to those of the leaves
RECURSIVE Built(_, _), BuiltAll(_, _, _)
BuiltAll(s, D, j) == IF j > Len(s) THEN D ELSE BuiltAll(s, Built(s[j], D), j + 1)
Set(d) == IF d > 0 THEN d ELSE 0
Built(e, D0) ==
  LET D == BuiltAll(e.s, D0, 1)
      at(j) == D[e.s[j].n]
      last == D[e.s[Len(e.s)].n]
      all == \A j \in 1..Len(e.s) : at(j).nI # None
      dims == CASE e.k = "chain" -> [nO |-> Set(last.nO), nI |-> at(1).nI]
                [] e.k \in {"add", "concat"} -> [nO |-> 0, nI |-> IF all THEN 0 ELSE None]
                [] e.k = "residual" -> [nO |-> Set(at(1).nO), nI |-> Set(at(1).nI)]
                [] e.k \in Copies -> at(1)
                [] e.k \in Bare -> [nO |-> None, nI |-> None]
                [] e.k \in {"uniqued", "with_reshape"} -> [nO |-> 0, nI |-> 0]
                [] e.k = "tuplify" -> [nO |-> None, nI |-> 0]
                [] e.k = "siamese" -> [nO |-> 1, nI |-> at(1).nI]
                [] OTHER -> D0[e.n]
  IN [D EXCEPT ![e.n] = dims]

\* ---------------------------------------------------------- initialization
\* a width for a dimension: refused if it has another one
Put(r, n, dim, w) ==
  IF r.v # "ok" \/ w <= 0 \/ r.D[n][dim] = None \/ r.D[n][dim] = w THEN r
  ELSE IF r.D[n][dim] = 0 THEN [r EXCEPT !.D[n][dim] = w]
  ELSE [r EXCEPT !.v = "conflict"]
\* only if it has none; another one is a conflict that shows up later
Have(r, n, dim) == IF r.v = "ok" /\ r.D[n][dim] = 0 THEN [r EXCEPT !.v = "missing"] ELSE r
Out(r, w) == IF r.v = "ok" THEN [r EXCEPT !.o = w] ELSE r
Flow(x, w) == IF x = <<>> THEN <<>> ELSE <<w>>
Dense == {"linear", "dense", "maxout", "softmax", "sigmoid", "lstm"}
Unset(D, e) == D[e.n].nO = 0
RECURSIVE Infer(_, _, _, _), Each(_, _, _, _, _, _), Chained(_, _, _, _, _, _), Sum(_)
\* all parts on the same input; ys: what each of them gets as outputs (now: only if its width is not known by then)
Each(s, r, x, ys, now, j) ==
  IF r.v # "ok" \/ j > Len(s) THEN r
  ELSE LET q == Infer(s[j], r.D, x, IF now /\ ~Unset(r.D, s[j]) THEN <<>> ELSE ys[j]) IN Each(s, [v |-> q.v, D |-> q.D, o |-> Append(r.o, q.o)], x, ys, now, j + 1)
Chained(s, D, x, y, j, o) ==
  IF j > Len(s) THEN [v |-> "ok", D |-> D, o |-> o]
  ELSE LET r == Infer(s[j], D, o, IF Unset(D, s[j]) THEN y ELSE <<>>)
       IN IF r.v # "ok" THEN r ELSE Chained(s, r.D, x, y, j + 1, r.o)
Sum(w) == IF w = <<>> THEN 0 ELSE Head(w) + Sum(Tail(w))
Take(r, n, m) == Put(Put(r, n, "nI", r.D[m].nI), n, "nO", r.D[m].nO)    \* dimensions of a part
Inner(e, r) == Take(r, e.n, e.s[1].n)
RECURSIVE PutAll(_, _, _, _, _)
PutAll(s, r, dim, w, j) == IF j > Len(s) THEN r ELSE PutAll(s, Put(r, s[j].n, dim, w), dim, w, j + 1)
RECURSIVE PutUnset(_, _, _, _, _)
PutUnset(s, r, D, w, j) == IF j > Len(s) THEN r ELSE PutUnset(s, IF Unset(D, s[j]) THEN Put(r, s[j].n, "nO", w) ELSE r, D, w, j + 1)
RECURSIVE SameOut(_, _, _)
SameOut(e, r, j) == IF j > Len(e.s) THEN r ELSE SameOut(e, Put(r, e.n, "nO", r.D[e.s[j].n].nO), j + 1)
Ok(D) == [v |-> "ok", D |-> D, o |-> <<>>]
Infer(e, D, x, y) ==
  CASE e.k = "id" -> Out(Ok(D), x)
    [] e.k = "window" -> Out(Ok(D), IF x = <<>> THEN x ELSE <<x[1] * (2 * e.size + 1)>>)
    [] e.k \in Dense ->
         (LET r == Have(Have(Put(Put(Ok(D), e.n, "nI", Num(x)), e.n, "nO", IF e.k \in {"softmax", "sigmoid"} /\ D[e.n].nO # 0 THEN 0 ELSE Num(y)), e.n, "nO"), e.n, "nI")
          IN Out(r, Flow(x, r.D[e.n].nO)))
    \* outputs are not looked at
    [] e.k = "multisoftmax" -> (LET r == Have(Put(Ok(D), e.n, "nI", Num(x)), e.n, "nI") IN Out(r, Flow(x, D[e.n].nO)))
    [] e.k = "norm" ->
         (LET w == IF x # <<>> THEN Num(x) ELSE IF y # <<>> THEN Num(y) ELSE D[e.n].nI
              r == Have(Put(Put(Ok(D), e.n, "nI", w), e.n, "nO", w), e.n, "nI")
              q == Put(r, e.n, "nO", r.D[e.n].nI)
          IN Out(q, Flow(x, q.D[e.n].nO)))
    [] e.k = "embed" -> (LET r == Have(Put(Ok(D), e.n, "nO", Num(y)), e.n, "nO") IN Out(r, Flow(x, r.D[e.n].nO)))
    [] e.k = "hashembed" -> Out(Ok(D), Flow(x, D[e.n].nO))
    [] e.k = "attention" -> (LET r == Have(Put(Ok(D), e.n, "nO", Num(x)), e.n, "nO") IN Out(r, Flow(x, r.D[e.n].nO)))
    [] e.k = "attention2" ->
         (LET r == Have(Put(Put(Ok(D), e.n, "nO", Num(x)), e.s[1].n, "nO", Num(x)), e.n, "nO")
              q == IF r.v = "ok" THEN Infer(e.s[1], r.D, x, y) ELSE r
          IN Out(q, Flow(x, q.D[e.n].nO)))
    [] e.k = "cauchy" -> (LET r == Have(Put(Ok(D), e.n, "nI", IF x = <<>> THEN 0 ELSE x[1]), e.n, "nI") IN Out(r, Flow(x, None)))
    [] e.k = "chain" ->
         (LET r == Chained(e.s, D, x, y, 1, x)
              q == Put(r, e.n, "nI", r.D[e.s[1].n].nI)
              last == q.D[e.s[Len(e.s)].n].nO
              w == IF last > 0 THEN last ELSE IF q.D[e.n].nO # 0 THEN 0 ELSE IF q.o = <<>> THEN 0 ELSE Set(q.o[1])
          IN IF r.v # "ok" THEN r ELSE Put(q, e.n, "nO", w))
    [] e.k = "add" ->
         (LET r0 == PutAll(e.s, Put(Ok(D), e.n, "nI", Num(x)), "nI", Num(x), 1)
              r1 == PutUnset(e.s, r0, D, Num(y), 1)
              r2 == IF r1.v # "ok" THEN r1 ELSE Each(e.s, [r1 EXCEPT !.o = <<>>], x, [j \in 1..Len(e.s) |-> IF Unset(D, e.s[j]) THEN y ELSE <<>>], FALSE, 1)
              r3 == SameOut(e, r2, 1)
              \* widths that only show up when the layers run
              even == x = <<>> \/ \A j \in 1..Len(r3.o) : r3.o[j] = r3.o[1]
          IN IF r3.v # "ok" THEN r3 ELSE IF ~even THEN [r3 EXCEPT !.v = "conflict"] ELSE Out(r3, r3.o[1]))
    [] e.k = "concat" ->
         (LET r0 == PutAll(e.s, Put(Ok(D), e.n, "nI", Num(x)), "nI", Num(x), 1)
              r2 == IF r0.v # "ok" THEN r0 ELSE Each(e.s, [r0 EXCEPT !.o = <<>>], x, [j \in 1..Len(e.s) |-> y], TRUE, 1)
              known == \A j \in 1..Len(e.s) : r2.D[e.s[j].n].nO > 0
              r3 == IF r2.v = "ok" /\ known THEN Put(r2, e.n, "nO", Sum([j \in 1..Len(e.s) |-> r2.D[e.s[j].n].nO])) ELSE r2
          IN IF r3.v # "ok" THEN r3 ELSE Out(r3, Flow(x, Sum([j \in 1..Len(r3.o) |-> Num(r3.o[j])]))))
    [] e.k = "residual" ->
         (LET r == Infer(e.s[1], D, x, IF Unset(D, e.s[1]) THEN y ELSE <<>>)
              q == IF r.v = "ok" THEN Inner(e, r) ELSE r
              d == q.D[e.n]
          IN IF q.v # "ok" THEN q
             ELSE IF (d.nO > 0 /\ d.nI > 0 /\ d.nO # d.nI) \/ (x # <<>> /\ q.o # x) THEN [q EXCEPT !.v = "conflict"]
             ELSE q)
    [] e.k \in Copies \cup {"uniqued", "with_reshape"} -> (LET r == Infer(e.s[1], D, x, y) IN IF r.v = "ok" THEN Inner(e, r) ELSE r)
    [] e.k \in Bare \ {"getitem"} -> Infer(e.s[1], D, x, y)
    [] e.k = "getitem" ->
         (LET r == Infer(e.s[1], D, IF x = <<>> THEN x ELSE <<x[e.idx + 1]>>, IF y = <<>> THEN y ELSE <<y[e.idx + 1]>>)
          IN Out(r, IF x = <<>> THEN x ELSE [x EXCEPT ![e.idx + 1] = Num(r.o)]))
    [] e.k = "tuplify" ->
         (LET r == Each(e.s, [v |-> "ok", D |-> D, o |-> <<>>], x, [j \in 1..Len(e.s) |-> IF y # <<>> THEN <<y[j]>> ELSE <<>>], TRUE, 1)
          IN Out(IF r.v = "ok" THEN Put(r, e.n, "nI", r.D[e.s[1].n].nI) ELSE r, IF x = <<>> THEN x ELSE [j \in 1..Len(r.o) |-> Num(r.o[j])]))
    [] e.k = "siamese" ->
         (LET r1 == IF x = <<>> THEN Infer(e.s[1], D, <<>>, <<>>) ELSE LET q == Put(Ok(D), e.s[1].n, "nI", x[2]) IN IF q.v = "ok" THEN Infer(e.s[1], q.D, <<x[1]>>, <<>>) ELSE q
              r2 == IF r1.v # "ok" THEN r1 ELSE Infer(e.s[2], r1.D, IF x = <<>> THEN x ELSE <<Num(r1.o), Num(r1.o)>>, <<>>)
              r3 == IF r2.v # "ok" THEN r2 ELSE Have(r2, e.s[1].n, "nI")
          IN Out(IF r3.v = "ok" THEN Put(r3, e.n, "nI", r3.D[e.s[1].n].nI) ELSE r3, Flow(x, None)))

\* -------------------------------------------------------------- parameters
\* shapes of the parameters of a leaf: pairs of name and shape
Hidden(e, d) == d.nO \div e.dirs
RECURSIVE LstmSize(_, _, _, _)
LstmSize(nI, h, dirs, depth) ==
  IF depth = 0 THEN 0 ELSE 4 * dirs * (h * nI + h * h + 2 * h) + LstmSize(h * dirs, h, dirs, depth - 1)
ParamShapes(e, d) ==
  CASE e.k \in {"linear", "dense", "softmax", "sigmoid", "multisoftmax"} -> <<<<"W", <<d.nO, d.nI>>>>, <<"b", <<d.nO>>>>>>
    [] e.k = "maxout" -> <<<<"W", <<d.nO, e.nP, d.nI>>>>, <<"b", <<d.nO, e.nP>>>>>>
    [] e.k = "norm" -> <<<<"G", <<d.nI>>>>, <<"b", <<d.nI>>>>>>
    [] e.k \in {"embed", "hashembed"} -> <<<<"E", <<e.nV, d.nO>>>>>>
    [] e.k \in {"attention", "attention2"} -> <<<<"Q", <<d.nO>>>>>>
    [] e.k = "cauchy" -> <<<<"W", <<d.nI>>>>>>
    [] e.k = "lstm" -> <<<<"HC0", <<2, e.depth, e.dirs, Hidden(e, d)>>>>, <<"LSTM", <<LstmSize(d.nI, Hidden(e, d), e.dirs, e.depth)>>>>>>
    [] OTHER -> <<>>
RECURSIVE Nodes(_)
Nodes(e) == {e} \cup UNION {Nodes(e.s[j]) : j \in 1..Len(e.s)}

\* ------------------------------------------------- what should hold of it all
\* the widths that flow through e on an input of width w > 0: "conflict" where parts do not fit
\* (for expressions over rows only)
RECURSIVE Fits(_, _, _)
Fits(e, D, w) ==
  CASE e.k = "id" -> <<TRUE, w>>
    [] e.k = "window" -> <<TRUE, w * (2 * e.size + 1)>>
    [] e.k \in Dense -> <<D[e.n].nI = w /\ D[e.n].nO > 0, D[e.n].nO>>
    [] e.k = "norm" -> <<D[e.n].nI = w /\ D[e.n].nO = w, w>>
    [] e.k = "chain" -> (LET a == Fits(e.s[1], D, w)
                             b == IF Len(e.s) = 1 THEN a ELSE Fits([e EXCEPT !.s = Tail(@)], D, a[2])
                         IN <<a[1] /\ b[1], b[2]>>)
    [] e.k = "add" -> (LET f == [j \in 1..Len(e.s) |-> Fits(e.s[j], D, w)]
                       IN <<(\A j \in 1..Len(f) : f[j][1] /\ f[j][2] = f[1][2]), f[1][2]>>)
    [] e.k = "concat" -> (LET f == [j \in 1..Len(e.s) |-> Fits(e.s[j], D, w)]
                          IN <<(\A j \in 1..Len(f) : f[j][1]), Sum([j \in 1..Len(f) |-> f[j][2]])>>)
    [] e.k = "residual" -> (LET f == Fits(e.s[1], D, w) IN <<f[1] /\ f[2] = w, w>>)
    [] OTHER -> Fits(e.s[1], D, w)
=============================================================================
