----------------------------- MODULE Containers -----------------------------
(***************************************************************************)
(* Sequence containers, conversions between them and indexing (C08, C09).  *)
(*                                                                         *)
(* A container is a record with t (its kind), sh (shape of one item), dt   *)
(* (dtype), ln (what len() reports) and                                    *)
(*   "l"  s: list of sequences, each a list of rows                        *)
(*   "m"  r: rows                          (array)                         *)
(*   "c"  r: batch x time rows             (dense, padded array)           *)
(*   "g"  r: rows, n: lengths              (Ragged)                        *)
(*   "p"  r: time x batch rows, z: batch size per step, n: lengths,        *)
(*        x: original positions            (Padded)                        *)
(*   "q"  one, two: containers             (Pairs)                         *)
(* Rows are flattened to integers; md is the dtype of the metadata.        *)
(***************************************************************************)
EXTENDS Values

C(t, sh, dt, rest) == [t |-> t, sh |-> sh, dt |-> dt] @@ rest
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
W(k) == Prod(k.sh)
SortedDesc(s) == \A i \in 1..(Len(s) - 1) : s[i] >= s[i + 1]

ListC(k, seqs) == C("l", k.sh, k.dt, [s |-> seqs, ln |-> Len(seqs)])
ArrC(k, rows) == C("m", k.sh, k.dt, [r |-> rows, ln |-> Len(rows)])
RagC(k, rows, lens) == C("g", k.sh, k.dt, [r |-> rows, n |-> lens, ln |-> Len(lens), md |-> "int32"])
DenseC(k, planes) == C("c", k.sh, k.dt, [r |-> planes, ln |-> Len(planes)])
PadC(k, T, w, seqs, pos) ==
  C("p", k.sh, k.dt,
    [r |-> [t \in 1..T |-> [b \in 1..Len(seqs) |-> IF t <= Len(seqs[b]) THEN seqs[b][t] ELSE Zeros(w)]],
     z |-> [t \in 1..T |-> Count(Lens(seqs), t - 1)],
     n |-> Lens(seqs), x |-> pos, ln |-> Len(seqs), md |-> "int32"])

\* number of steps of a batch of sequences
TMax(seqs) == IF seqs = <<>> THEN 0 ELSE SMax(Lens(seqs))

\* the sequences in the order in which the container stores them
Stored(k) == CASE k.t = "l" -> k.s
               [] k.t = "g" -> Split(k.r, k.n)
               [] k.t = "p" -> [b \in 1..Len(k.n) |-> [t \in 1..k.n[b] |-> k.r[t][b]]]
               [] k.t = "c" -> k.r
               [] k.t = "m" -> k.r
\* the sequences in their original order
Seqs(k) == IF k.t # "p" THEN Stored(k)
           ELSE [i \in 1..Len(k.n) |-> Stored(k)[CHOOSE b \in 1..Len(k.n) : k.x[b] = i - 1]]
IsPerm(x) == {x[i] : i \in 1..Len(x)} = {i - 1 : i \in 1..Len(x)}

\* ------------------------------------------------------- conversions
RECURSIVE FlatPad(_, _, _)
FlatPad(seqs, k, w) ==
  IF seqs = <<>> THEN <<>>
  ELSE IF Head(seqs) = <<>> THEN FlatPad(Tail(seqs), k, w)
  ELSE ZeroRows(k, w) \o Head(seqs) \o FlatPad(Tail(seqs), k, w)
RowsOf(seqs) == {i \in 1..Len(seqs) : seqs[i] # <<>>}
Flattened(seqs, k, w) == IF RowsOf(seqs) = {} THEN <<>> ELSE FlatPad(seqs, k, w) \o ZeroRows(k, w)
RECURSIVE Unflatten(_, _, _)
Unflatten(rows, lens, k) ==
  IF lens = <<>> THEN <<>>
  ELSE IF Head(lens) = 0 THEN <<<<>>>> \o Unflatten(rows, Tail(lens), k)
  ELSE <<SubSeq(rows, k + 1, k + Head(lens))>> \o Unflatten(SubSeq(rows, k + Head(lens) + 1, Len(rows)), Tail(lens), k)
RoundUp(n, k) == ((n + k - 1) \div k) * k

\* canonical result of a conversion; x.op names it
Conv(k, x) ==
  CASE x.op = "flatten" -> ArrC(k, Flattened(k.s, x.pad, W(k)))
    [] x.op = "unflatten" -> ListC(k, Unflatten(k.r, x.n, x.pad))
    [] x.op = "pad" -> LET T == RoundUp(TMax(k.s), x.rd) IN
         DenseC(k, [b \in 1..Len(k.s) |-> k.s[b] \o ZeroRows(T - Len(k.s[b]), W(k))])
    [] x.op = "unpad" -> ListC(k, [b \in 1..Len(x.n) |-> SubSeq(k.r[b], 1, x.n[b])])
    [] x.op = "list2padded" -> LET ord == PadOrderOf(Lens(k.s)) IN
         PadC(k, TMax(k.s), W(k), [b \in 1..Len(k.s) |-> k.s[ord[b]]], [b \in 1..Len(k.s) |-> ord[b] - 1])
    [] x.op = "padded2list" -> ListC(k, Seqs(k))
    [] x.op = "list2ragged" -> RagC(k, Flat(k.s), Lens(k.s))
    [] x.op = "ragged2list" -> ListC(k, Stored(k))
    [] x.op = "list2array" -> ArrC(k, Flat(k.s))
    [] x.op = "ragged" -> RagC(k, k.r, x.n)
    [] x.op = "dataxd" -> ArrC(k, k.r)
    [] x.op = "copy" -> k
\* does out hold the sequences as the padded form of them demands?
PaddedOK(out) ==
  /\ SortedDesc(out.n)
  /\ Len(out.x) = Len(out.n)
  /\ Len(out.z) = Len(out.r)
  /\ \A t \in 1..Len(out.r) : Len(out.r[t]) = Len(out.n) /\ out.z[t] = Count(out.n, t - 1)
  /\ \A t \in 1..Len(out.r) : \A b \in 1..Len(out.n) : t > out.n[b] => out.r[t][b] = Zeros(Len(out.r[t][b]))

\* nothing in it: shape and dtype of the items are not determined
RECURSIVE NoRows(_)
NoRows(k) == CASE k.t = "q" -> FALSE
               [] k.t = "l" -> RowsOf(k.s) = {}
               [] k.t = "p" -> \A i \in 1..Len(k.n) : k.n[i] = 0
               [] OTHER -> k.r = <<>> \/ (k.t = "c" /\ k.r[1] = <<>>)
RECURSIVE SameC(_, _)
SameC(a, b) ==
  IF a.t # b.t THEN FALSE
  ELSE IF a.t = "q" THEN SameC(a.one, b.one) /\ SameC(a.two, b.two) /\ a.ln = b.ln
  ELSE IF NoRows(a) /\ NoRows(b)
       THEN LET e(k) == [k EXCEPT !.sh = <<>>, !.dt = "", !.r = <<>>] IN
            IF a.t = "l" THEN Len(a.s) = Len(b.s) ELSE e(a) = e(b)
       ELSE a = b

\* -------------------------------------------------------------- indexing
Clamp(v, lo, hi) == Max2(lo, Min2(v, hi))
\* positions (1-based) a Python slice selects from n items; parts are <<>> or <<number>>
SliceIdx(n, p) ==
  LET step == IF p[3] = <<>> THEN 1 ELSE p[3][1]
      lo == IF step > 0 THEN 0 ELSE -1
      hi == IF step > 0 THEN n ELSE n - 1
      Fix(q, dflt) == IF q = <<>> THEN dflt ELSE Clamp(IF q[1] < 0 THEN q[1] + n ELSE q[1], lo, hi)
      a == Fix(p[1], IF step > 0 THEN lo ELSE hi)
      b == Fix(p[2], IF step > 0 THEN hi ELSE lo)
      cnt == IF step > 0 THEN (b - a + step - 1) \div step ELSE (a - b - step - 1) \div (-step)
  IN [j \in 1..Max2(0, cnt) |-> a + (j - 1) * step + 1]
RECURSIVE Where(_, _)
Where(m, j) == IF j > Len(m) THEN <<>> ELSE (IF m[j] = 1 THEN <<j>> ELSE <<>>) \o Where(m, j + 1)
\* positions selected from n items, <<0>> when some position is out of range
Positions(n, ix) ==
  CASE ix.k = "i" -> IF ix.v < -n \/ ix.v >= n THEN <<0>> ELSE <<(IF ix.v < 0 THEN ix.v + n ELSE ix.v) + 1>>
    [] ix.k = "s" -> SliceIdx(n, ix.v)
    [] ix.k = "a" -> IF \E j \in 1..Len(ix.v) : ix.v[j] < -n \/ ix.v[j] >= n THEN <<0>>
                     ELSE [j \in 1..Len(ix.v) |-> (IF ix.v[j] < 0 THEN ix.v[j] + n ELSE ix.v[j]) + 1]
    [] ix.k = "m" -> Where(ix.v, 1)
RECURSIVE Insert(_, _)
Insert(s, y) == IF s = <<>> THEN <<y>> ELSE IF y < Head(s) THEN <<y>> \o s ELSE <<Head(s)>> \o Insert(Tail(s), y)
RECURSIVE Sorted(_)
Sorted(s) == IF s = <<>> THEN <<>> ELSE Insert(Sorted(Tail(s)), Head(s))

RECURSIVE At(_, _)
At(k, ps) ==
  CASE k.t = "l" -> ListC(k, [j \in 1..Len(ps) |-> k.s[ps[j]]])
    [] k.t = "m" -> ArrC(k, [j \in 1..Len(ps) |-> k.r[ps[j]]])
    [] k.t = "g" -> LET sel == [j \in 1..Len(ps) |-> Stored(k)[ps[j]]] IN RagC(k, Flat(sel), Lens(sel))
    \* a padded batch stays sorted by decreasing length
    [] k.t = "p" -> LET q == Sorted(ps) IN
         PadC(k, Len(k.r), W(k), [j \in 1..Len(q) |-> Stored(k)[q[j]]], [j \in 1..Len(q) |-> k.x[q[j]]])
    [] k.t = "q" -> [t |-> "q", one |-> At(k.one, ps), two |-> At(k.two, ps), ln |-> Len(ps)]
\* a batch padded further than needed keeps its number of steps
\* ------------------------------------------------------- argument containers
Ints(items) == SelectSeq(items, LAMBDA it : it.i)
Strs(items) == SelectSeq(items, LAMBDA it : ~it.i)
ItemsOf(items) == [j \in 1..Len(Ints(items)) |-> [i |-> TRUE, k |-> ToString(j - 1), v |-> Ints(items)[j].v]] \o Strs(items)
=============================================================================
