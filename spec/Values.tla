------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* Values that flow through models, and exact integer arithmetic on them.  *)
(*                                                                         *)
(*   [t |-> "v", r |-> seq]                    one-dimensional array       *)
(*   [t |-> "m", w |-> width, r |-> rows]      matrix (rows are sequences) *)
(*   [t |-> "c", w |-> width, r |-> planes]    3-d array: seq of seq of row*)
(*   [t |-> "g", w, r |-> rows, n |-> lengths] ragged batch                *)
(*   [t |-> "p", w, r |-> planes (time x batch), z |-> batch size per step,*)
(*           n |-> lengths, x |-> original positions]     padded batch     *)
(*   [t |-> "l", s |-> seq of values]          list                        *)
(*   [t |-> "u", s |-> seq of values]          tuple                       *)
(*   [t |-> "x", e |-> name]                   an exception was raised     *)
(*                                                                         *)
(* Everything is an integer: the harness only uses numbers that float32    *)
(* represents exactly, so observed results are compared exactly.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* v, fully evaluated: TLC represents [i \in S |-> e] lazily and would evaluate e again
\* for every use; comparing the value with itself makes it compute and keep the elements
Eager(v) == IF v = v THEN v ELSE Assert(FALSE, "not a value")

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a

RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumTo(s, k - 1)
Sum(s) == SumTo(s, Len(s))

RECURSIVE SMax(_)
SMax(s) == IF Len(s) = 1 THEN s[1] ELSE Max2(s[1], SMax(Tail(s)))

\* index of the first maximum
ArgMax(s) == CHOOSE i \in 1..Len(s) :
                /\ \A j \in 1..Len(s) : s[j] <= s[i]
                /\ \A j \in 1..(i - 1) : s[j] < s[i]

Zeros(n) == [i \in 1..n |-> 0]
ZeroRows(n, w) == [i \in 1..n |-> Zeros(w)]
Dot(a, b) == Sum([i \in 1..Len(a) |-> a[i] * b[i]])
RowAdd(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
RowSub(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
RowScale(c, a) == [i \in 1..Len(a) |-> c * a[i]]

RECURSIVE FoldRows(_, _, _)
FoldRows(rows, k, w) == IF k = 0 THEN Zeros(w) ELSE Eager(RowAdd(FoldRows(rows, k - 1, w), rows[k]))
ColSum(rows, w) == FoldRows(rows, Len(rows), w)

Col(rows, j) == [i \in 1..Len(rows) |-> rows[i][j]]

\* X (n x k) times transpose of W (m x k)
MulT(X, W) == [i \in 1..Len(X) |-> [o \in 1..Len(W) |-> Dot(X[i], W[o])]]
\* dY (n x m) times W (m x k)
Mul(dY, W, k) == [i \in 1..Len(dY) |-> [j \in 1..k |-> Sum([o \in 1..Len(W) |-> dY[i][o] * W[o][j]])]]
\* transpose(A) (m x n) times B (n x k)
TMul(A, B, m, k) == [o \in 1..m |-> [j \in 1..k |-> Sum([i \in 1..Len(A) |-> A[i][o] * B[i][j]])]]

RowsAdd(A, B) == [i \in 1..Len(A) |-> RowAdd(A[i], B[i])]
RowsSub(A, B) == [i \in 1..Len(A) |-> RowSub(A[i], B[i])]
PlanesAdd(A, B) == [i \in 1..Len(A) |-> RowsAdd(A[i], B[i])]
HCat(A, B) == [i \in 1..Len(A) |-> A[i] \o B[i]]
SubCols(A, lo, hi) == [i \in 1..Len(A) |-> SubSeq(A[i], lo, hi)]

RECURSIVE Flat(_)
Flat(ss) == IF Len(ss) = 0 THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

RECURSIVE Split(_, _)
Split(rows, lens) ==
  IF Len(lens) = 0 THEN <<>>
  ELSE <<SubSeq(rows, 1, Head(lens))>> \o Split(SubSeq(rows, Head(lens) + 1, Len(rows)), Tail(lens))

Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Lens(ss) == [i \in 1..Len(ss) |-> Len(ss[i])]

\* ----------------------------------------------------------- constructors
V(s) == [t |-> "v", r |-> s]
M(w, rows) == [t |-> "m", w |-> w, r |-> rows]
C3(w, planes) == [t |-> "c", w |-> w, r |-> planes]
G(w, rows, lens) == [t |-> "g", w |-> w, r |-> rows, n |-> lens]
PD(w, planes, z, n, x) == [t |-> "p", w |-> w, r |-> planes, z |-> z, n |-> n, x |-> x]
L(s) == [t |-> "l", s |-> s]
U(s) == [t |-> "u", s |-> s]
Exc(e) == [t |-> "x", e |-> e]
Lst(w, seqs) == L([i \in 1..Len(seqs) |-> M(w, seqs[i])])

\* ------------------------------------------------ sequence representations
\* Stable order by decreasing length, later sequences first among equals
\* (the order in which list2padded lays sequences out).
PadOrder(lens) ==
  CHOOSE p \in [1..Len(lens) -> 1..Len(lens)] :
    \A i \in 1..(Len(lens) - 1) :
       \/ lens[p[i]] > lens[p[i + 1]]
       \/ lens[p[i]] = lens[p[i + 1]] /\ p[i] > p[i + 1]

\* PadOrder by insertion, evaluable for longer batches
RECURSIVE InsertPos(_, _, _, _)
InsertPos(ord, lens, i, k) ==
  IF k > Len(ord) THEN ord \o <<i>>
  ELSE IF lens[ord[k]] > lens[i] THEN InsertPos(ord, lens, i, k + 1)
       ELSE SubSeq(ord, 1, k - 1) \o <<i>> \o SubSeq(ord, k, Len(ord))
RECURSIVE PadOrd(_, _)
PadOrd(lens, i) == IF i = 0 THEN <<>> ELSE InsertPos(PadOrd(lens, i - 1), lens, i, 1)
PadOrderOf(lens) == PadOrd(lens, Len(lens))

Count(lens, k) == Cardinality({i \in 1..Len(lens) : lens[i] > k})

ToPadded(w, seqs) ==
  IF Len(seqs) = 0 THEN PD(0, <<>>, <<>>, <<>>, <<>>)
  ELSE LET lens == Lens(seqs)
           ord == PadOrderOf(lens)
           T == SMax(lens)
       IN PD(w,
             [k \in 1..T |-> [b \in 1..Len(seqs) |->
                 IF k <= lens[ord[b]] THEN seqs[ord[b]][k] ELSE Zeros(w)]],
             [k \in 1..T |-> Count(lens, k - 1)],
             [b \in 1..Len(seqs) |-> lens[ord[b]]],
             [b \in 1..Len(seqs) |-> ord[b] - 1])

\* The sequences of a padded batch, in original order
PaddedSeqs(p) ==
  [i \in 1..Len(p.n) |->
     LET b == CHOOSE b \in 1..Len(p.n) : p.x[b] = i - 1
     IN [k \in 1..p.n[b] |-> p.r[k][b]]]

\* The sequences of any sequence container (list of matrices, ragged, padded)
SeqsOf(X) == Eager(CASE X.t = "l" -> [i \in 1..Len(X.s) |-> X.s[i].r]
               [] X.t = "g" -> Split(X.r, X.n)
               [] X.t = "p" -> PaddedSeqs(X))
WidthOf(X) == CASE X.t = "l" -> IF Len(X.s) = 0 THEN 0 ELSE X.s[1].w
                [] OTHER -> X.w
\* Sequences with the same layout as X, in the same kind of container
Like(X, w, seqs) == CASE X.t = "l" -> Lst(w, seqs)
                      [] X.t = "g" -> G(w, Flat(seqs), Lens(seqs))
                      [] X.t = "p" -> ToPadded(w, seqs)

\* ---------------------------------------------------- generic value algebra
RECURSIVE VAdd(_, _)
VAdd(a, b) ==
  CASE a.t = "v" -> V([i \in 1..Len(a.r) |-> a.r[i] + b.r[i]])
    [] a.t = "m" -> M(a.w, RowsAdd(a.r, b.r))
    [] a.t = "c" -> C3(a.w, PlanesAdd(a.r, b.r))
    [] a.t = "g" -> G(a.w, RowsAdd(a.r, b.r), a.n)
    [] a.t = "p" -> PD(a.w, PlanesAdd(a.r, b.r), a.z, a.n, a.x)
    [] a.t = "l" -> L([i \in 1..Len(a.s) |-> VAdd(a.s[i], b.s[i])])
    [] a.t = "u" -> U([i \in 1..Len(a.s) |-> VAdd(a.s[i], b.s[i])])

RECURSIVE VAddAll(_)
VAddAll(vs) == IF Len(vs) = 1 THEN vs[1] ELSE VAdd(VAddAll(SubSeq(vs, 1, Len(vs) - 1)), vs[Len(vs)])

\* inner product of two values of the same shape
RECURSIVE VDot(_, _)
VDot(a, b) ==
  CASE a.t = "v" -> Dot(a.r, b.r)
    [] a.t \in {"m", "g"} -> Sum([i \in 1..Len(a.r) |-> Dot(a.r[i], b.r[i])])
    [] a.t \in {"c", "p"} -> Sum([k \in 1..Len(a.r) |-> Sum([i \in 1..Len(a.r[k]) |-> Dot(a.r[k][i], b.r[k][i])])])
    [] a.t \in {"l", "u"} -> Sum([i \in 1..Len(a.s) |-> VDot(a.s[i], b.s[i])])

RECURSIVE VSub(_, _)
VSub(a, b) ==
  CASE a.t = "v" -> V([i \in 1..Len(a.r) |-> a.r[i] - b.r[i]])
    [] a.t = "m" -> M(a.w, RowsSub(a.r, b.r))
    [] a.t = "c" -> C3(a.w, [i \in 1..Len(a.r) |-> RowsSub(a.r[i], b.r[i])])
    [] a.t = "g" -> G(a.w, RowsSub(a.r, b.r), a.n)
    [] a.t = "p" -> PD(a.w, [i \in 1..Len(a.r) |-> RowsSub(a.r[i], b.r[i])], a.z, a.n, a.x)
    [] a.t \in {"l", "u"} -> [t |-> a.t, s |-> [i \in 1..Len(a.s) |-> VSub(a.s[i], b.s[i])]]

\* Arrays without rows are compared without their width
RECURSIVE Norm(_)
Norm(v) ==
  CASE v.t \in {"m", "c", "g", "p"} -> IF Len(v.r) = 0 THEN [v EXCEPT !.w = 0] ELSE v
    [] v.t \in {"l", "u"} -> [v EXCEPT !.s = [i \in 1..Len(v.s) |-> Norm(v.s[i])]]
    [] OTHER -> v
Same(a, b) == a.t = b.t /\ Norm(a) = Norm(b)
=============================================================================
