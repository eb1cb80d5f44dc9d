----------------------------- MODULE RepresentMC -----------------------------
(***************************************************************************)
(* Design checks of Represent.  A wrapper is a path of conversions to what *)
(* the inner layer takes and back.  For every small batch, representation, *)
(* wrapper and inner layer: the result is a well-formed container of the   *)
(* same kind that holds F of every sequence; batches that are extended or  *)
(* reordered change nothing for a sequence; gradients are exact.           *)
(***************************************************************************)
EXTENDS Represent
CONSTANTS MaxSeqs, MaxSeqLen
VARIABLES lens, form, wrap, gs, out
vars == <<lens, form, wrap, gs, out>>
Batch(ls) == [j \in 1..Len(ls) |-> [t \in 1..ls[j] |-> <<10 * j + t, j - 2 * t>>]]
P0 == [W |-> <<<<1, -1>>, <<2, 1>>>>, b |-> <<3, -2>>]
Hdr == [sh |-> <<2>>, dt |-> "float32"]
Conv1(op, k) == Conv(k, [op |-> op, pad |-> 0, n |-> <<>>])
AsList(k) == CASE k.t = "l" -> k [] k.t = "g" -> Conv1("ragged2list", k) [] k.t = "p" -> Conv1("padded2list", k)
From(k, t) == LET l == AsList(k) IN CASE t = "l" -> l [] t = "g" -> Conv1("list2ragged", l) [] t = "p" -> IF k.t = "p" THEN k ELSE Conv1("list2padded", l)
\* the inner layer works on its container in the order in which it is stored
Inner(g, k) ==
  LET ys == Images(g, P0, Stored(k)) IN
  CASE k.t = "l" -> ListC(Hdr, ys)
    [] k.t = "g" -> RagC(Hdr, Flat(ys), Lens(ys))
    [] k.t = "p" -> [r |-> [t \in 1..TMax(ys) |-> [b \in 1..Len(ys) |-> IF t <= Len(ys[b]) THEN ys[b][t] ELSE <<99, 99>>]],
                     z |-> [t \in 1..TMax(ys) |-> Count(Lens(ys), t - 1)], n |-> Lens(ys), x |-> k.x, ln |-> Len(ys), t |-> "p", sh |-> Hdr.sh, dt |-> Hdr.dt, md |-> "int32"]
Wrapped(w, g, k) == From(Inner(g, From(k, w)), k.t)
Given(ls, f) == From(ListC(Hdr, Batch(ls)), f)

Stages == {<<>>, <<"aff">>, <<"cum", "aff">>, <<"sq", "rev">>, <<"tot">>, <<"aff", "sq", "cum">>}
Longer == {<<"head">>, <<"twice", "cum">>}
Init == \E n \in 0..MaxSeqs : lens \in [1..n -> 0..MaxSeqLen] /\ form = "" /\ wrap = "" /\ gs = <<>> /\ out = ListC(Hdr, <<>>)
Next == /\ form = ""
        /\ form' \in {"l", "g", "p"} /\ wrap' \in {"l", "g", "p"} /\ gs' \in Stages \cup Longer
        /\ out' = Wrapped(wrap', gs', Given(lens, form'))
        /\ UNCHANGED lens
Spec == Init /\ [][Next]_vars
SameEverywhere == form # "" => out.t = form /\ Described(out) /\ Seqs(out) = Images(gs, P0, Batch(lens))
\* the last sequence left out, or the batch reversed
Alone == (form # "" /\ lens # <<>>) =>
            /\ SubSeq(Seqs(out), 1, Len(lens) - 1) = Seqs(Wrapped(wrap, gs, Given(SubSeq(lens, 1, Len(lens) - 1), form)))
            /\ LET back == From(ListC(Hdr, Reverse(Batch(lens))), form) IN Seqs(Wrapped(wrap, gs, back)) = Reverse(Seqs(out))
\* exact slopes: the stages are polynomials of degree two
DotAll(a, d) == Sum([t \in 1..Len(a) |-> Dot(a[t], d[t])])
Cell(s, t, j, v) == [s EXCEPT ![t][j] = @ + v]
Slopes == form = "l" /\ wrap = "l" => \A q \in 1..Len(lens) :
   LET s == Batch(lens)[q]  y == F(gs, P0, s)
       d == [t \in 1..Len(y) |-> <<t, 2 - t>>]
       b == B(gs, P0, s, d)
       val(ss, P) == DotAll(F(gs, P, ss), d)
   IN /\ \A t \in 1..Len(s) : \A j \in 1..2 : 2 * b.x[t][j] = val(Cell(s, t, j, 1), P0) - val(Cell(s, t, j, -1), P0)
      /\ \A o \in 1..2 : \A j \in 1..2 : 2 * b.g.W[o][j] = val(s, [P0 EXCEPT !.W[o][j] = @ + 1]) - val(s, [P0 EXCEPT !.W[o][j] = @ - 1])
      /\ \A o \in 1..2 : 2 * b.g.b[o] = val(s, [P0 EXCEPT !.b[o] = @ + 1]) - val(s, [P0 EXCEPT !.b[o] = @ - 1])
=============================================================================
