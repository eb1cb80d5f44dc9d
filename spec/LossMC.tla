------------------------------- MODULE LossMC -------------------------------
(***************************************************************************)
(* Design checks of Loss over all batches of up to MaxB rows of N classes: *)
(* missing truths give nothing, smoothed labels sum to one, negated labels *)
(* give no positive evidence, the forms agree, sequences are independent.  *)
(***************************************************************************)
EXTENDS Loss, FiniteSets
CONSTANTS N, MaxB, Guesses, Smooths
VARIABLES G, T, o, done
vars == <<G, T, o, done>>
Names == [j \in 1..N |-> <<96 + j>>]
Prefix == <<33>>
None == <<-1>>
StringTruths == {Names[j] : j \in 1..N} \cup {Prefix \o Names[j] : j \in 1..N} \cup {None}
Init == G = <<>> /\ T = <<>> /\ o = [form |-> "?"] /\ done = "no"
\* in two steps, so that several workers share the work
Next == \/ /\ done = "no" /\ done' = "guesses"
           /\ \E b \in 0..MaxB : G' \in [1..b -> [1..N -> Guesses]]
           /\ UNCHANGED <<T, o>>
        \/ /\ done = "guesses" /\ done' = "all"
           /\ T' \in [1..Len(G) -> StringTruths]
           /\ \E s \in Smooths, nm \in BOOLEAN :
                o' = [form |-> "strings", missing |-> <<None>>, prefix |-> Prefix, names |-> Names, smooth |-> s, norm |-> nm, n |-> N]
           /\ UNCHANGED G
Spec == Init /\ [][Next]_vars
Rows == 1..Len(G)
D == Grad(o, G, T)
MissingGivesNothing == done = "all" => \A i \in Rows : T[i] = None => IsZero(D[i])
SmoothedSumsToOne == done = "all" => \A c \in 1..N : FAbs(FSum(Smooth(c, N, o.smooth)) - S) <= N
\* the gradient never asks for more of a negated class, nor anything of the others
NoPositiveEvidence == done = "all" => \A i \in Rows : (T[i] # None /\ T[i][1] = 33) => \A j \in 1..N : IF Prefix \o Names[j] = T[i] THEN D[i][j] >= 0 ELSE D[i][j] = 0
\* as class numbers (missing: N) and, without smoothing, as rows
Plain == \A i \in Rows : T[i] = None \/ T[i][1] # 33
AsIds == [i \in Rows |-> IF T[i] = None THEN N ELSE IndexOf(Names, T[i]) - 1]
AsRows == [i \in Rows |-> Smooth(IndexOf(Names, T[i]), N, 0)]
FormsAgree == (done = "all" /\ Plain) =>
  /\ Grad([o EXCEPT !.form = "ids", !.missing = <<N>>], G, AsIds) = D
  /\ (o.smooth = 0 /\ \A i \in Rows : T[i] # None) => Grad([o EXCEPT !.form = "rows", !.missing = <<>>], G, AsRows) = D
\* a row's gradient does not depend on the others (but for their number), and sequences neither
Local == done = "all" =>
  /\ \A i \in Rows : RowNear(D[i], Over(Grad([o EXCEPT !.norm = FALSE], <<G[i]>>, <<T[i]>>), IF o.norm THEN Len(G) ELSE 1)[1], 0)
  /\ Len(G) > 0 => SeqGrad(o, <<G, <<>>>>, <<T, <<>>>>)[1] = Over(Grad([o EXCEPT !.norm = FALSE], G, T), IF o.norm THEN 2 ELSE 1)
\* cosine: the gradient is orthogonal to the guess
Orthogonal == done = "all" => \A i \in Rows : LET g == [j \in 1..N |-> G[i][j] + S]  t == [j \in 1..N |-> IF j = i THEN 2 * S ELSE S] IN
                FAbs(FDot(g, CosGradRow(g, t))) <= 40
=============================================================================
