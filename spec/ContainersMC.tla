---------------------------- MODULE ContainersMC ----------------------------
(***************************************************************************)
(* Design run of Containers: from every small list of sequences (any       *)
(* mixture of lengths including zero), every path of conversions and       *)
(* indexing up to MaxLen.  Invariants: the container always holds exactly  *)
(* the selected sequences, padded data is well formed.                     *)
(***************************************************************************)
EXTENDS Containers, Json
CONSTANTS MaxSeqs, MaxSeqLen, MaxLen, Emit
VARIABLES cur, sel, seqs, hist
vars == <<cur, sel, seqs, hist>>

Start(lens) == [j \in 1..Len(lens) |-> [t \in 1..lens[j] |-> <<10 * j + t>>]]
Hdr == [sh |-> <<1>>, dt |-> "float32"]
Init == \E n \in 0..MaxSeqs : \E lens \in [1..n -> 0..MaxSeqLen] :
          /\ seqs = Start(lens)
          /\ cur = ListC(Hdr, Start(lens))
          /\ sel = [j \in 1..n |-> j]
          /\ hist = <<>>
N == <<>>
Indices(n) == {[k |-> "i", v |-> j] : j \in (-n)..(n - 1)}
   \cup {[k |-> "s", v |-> <<a, b, s>>] : a \in {N, <<1>>, <<-2>>}, b \in {N, <<2>>, <<-1>>}, s \in {N, <<2>>, <<-1>>}}
   \cup {[k |-> "a", v |-> s] : s \in UNION {[1..m -> 0..(n - 1)] : m \in 0..Min2(2, n)}}
   \cup {[k |-> "m", v |-> m] : m \in [1..n -> {0, 1}]}
Moves == CASE cur.t = "l" -> {[op |-> "flatten", pad |-> p] : p \in 0..2} \cup {[op |-> "list2padded"], [op |-> "list2ragged"]}
                             \cup {[op |-> "pad", rd |-> r] : r \in {r \in 1..2 : cur.ln > 0}}
           [] cur.t = "g" -> {[op |-> "ragged2list"]}
           [] cur.t = "p" -> IF IsPerm(cur.x) THEN {[op |-> "padded2list"]} ELSE {}
           [] OTHER -> {}
\* flat and dense forms come back with the lengths they were made from
Back == CASE cur.t = "m" -> {[op |-> "unflatten", n |-> Lens([j \in 1..Len(sel) |-> seqs[sel[j]]]), pad |-> hist[Len(hist)].pad]}
          [] cur.t = "c" -> {[op |-> "unpad", n |-> Lens([j \in 1..Len(sel) |-> seqs[sel[j]]])]}
          [] OTHER -> {}
\* which sequence is stored in which slot after a conversion
Slots(x) == CASE x.op = "list2padded" -> [b \in 1..Len(sel) |-> sel[PadOrderOf(Lens(cur.s))[b]]]
              [] x.op = "padded2list" -> [j \in 1..Len(sel) |-> sel[CHOOSE b \in 1..Len(sel) : cur.x[b] = j - 1]]
              [] OTHER -> sel
Next == /\ Len(hist) < MaxLen
        /\ \/ \E x \in Moves \cup Back : cur' = Eager(Conv(cur, x)) /\ hist' = Append(hist, x) /\ sel' = Slots(x)
           \/ /\ cur.t \in {"g", "p"}
              /\ \E ix \in Indices(cur.ln) :
                   LET ps == Positions(cur.ln, ix)
                   IN /\ cur' = Eager(At(cur, ps))
                      /\ sel' = [j \in 1..Len(ps) |-> sel[IF cur.t = "g" THEN ps[j] ELSE Sorted(ps)[j]]]
                      /\ hist' = Append(hist, [op |-> "index", ix |-> ix])
        /\ seqs' = seqs
        /\ (Emit /\ Len(hist') = MaxLen) => PrintT("@@RUN " \o ToJson([s |-> seqs, h |-> hist']))
Spec == Init /\ [][Next]_vars

Want == [j \in 1..Len(sel) |-> seqs[sel[j]]]
Holds == CASE cur.t \in {"l", "g", "p"} -> Stored(cur) = Want
           [] cur.t = "c" -> \A b \in 1..cur.ln : SubSeq(cur.r[b], 1, Len(Want[b])) = Want[b]
                                /\ \A t \in (Len(Want[b]) + 1)..Len(cur.r[b]) : cur.r[b][t] = <<0>>
           [] OTHER -> SelectSeq(cur.r, LAMBDA r : r # <<0>>) = Flat(Want)
Padded == cur.t = "p" => PaddedOK(cur) /\ cur.ln = Len(sel)
\* converting a list and back gives the same list, whatever way it took
OneTrip == LET w == W(cur) IN cur.t = "l" =>
  LET ord == PadOrderOf(Lens(cur.s)) IN
  /\ \A p \in 0..2 : Conv(Conv(cur, [op |-> "flatten", pad |-> p]), [op |-> "unflatten", n |-> Lens(cur.s), pad |-> p]) = cur
  /\ Conv(Conv(cur, [op |-> "list2ragged"]), [op |-> "ragged2list"]) = cur
  /\ Conv(Conv(cur, [op |-> "list2padded"]), [op |-> "padded2list"]) = cur
  /\ cur.ln > 0 => Conv(Conv(cur, [op |-> "pad", rd |-> 2]), [op |-> "unpad", n |-> Lens(cur.s)]) = cur
Count2 == cur.t \in {"l", "g", "p", "c"} => cur.ln = Len(sel)
=============================================================================
