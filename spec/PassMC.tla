------------------------------- MODULE PassMC -------------------------------
(***************************************************************************)
(* Design run of the pass machine: every interleaving of forward passes,   *)
(* predictions, backward callbacks, manual increments and updates, up to   *)
(* MaxLen steps and MaxB batches, over a few small models with shared      *)
(* layers.  Checked in every state:                                        *)
(*   - gradients are the sum of the contributions of exactly the backward  *)
(*     passes made since the last update (order does not matter; a callback is called at most once),          *)
(*   - a gradient exists exactly for the parameters that received one,     *)
(*   - parameters change only in updates.                                  *)
(* Every maximal behaviour is printed; the harness executes it on real     *)
(* models (checks C02, C19).                                               *)
(***************************************************************************)
EXTENDS Layers, Json

CONSTANTS MaxLen, MaxB, Emit

VARIABLES hist, PP, GG, BB, m, evs, used
vars == <<hist, PP, GG, BB, m, evs, used>>

Lin(id) == [op |-> "linear", k |-> <<>>, nO |-> 2, id |-> id]
Rel(id) == [op |-> "relu", k |-> <<>>, nO |-> 2, id |-> id]
Ch(a, b) == [op |-> "chain", k |-> <<a, b>>]
Ad(a, b) == [op |-> "add", k |-> <<a, b>>]
Res(a) == [op |-> "residual", k |-> <<a>>]
Models == <<Ch(Rel(1), Lin(2)), Ad(Lin(1), Ch(Lin(1), Rel(2))), Res(Ch(Lin(1), Lin(1)))>>
P0 == <<[kind |-> "linear", W |-> <<<<1, -1>>, <<0, 1>>>>, b |-> <<1, 0>>],
        [kind |-> "linear", W |-> <<<<-1, 0>>, <<1, 1>>>>, b |-> <<0, 2>>]>>
Inputs == <<M(2, <<<<1, 2>>, <<-1, 0>>>>), M(2, <<<<0, -2>>>>), M(2, <<<<3, 1>>, <<2, -2>>>>)>>
\* gradient of an output with n rows
DY(n, j) == M(2, [i \in 1..n |-> <<j, i - j>>])

Key(id, nm) == <<id, nm>>
Update(Pa, Ga) ==
  [id \in 1..Len(Pa) |->
     [Pa[id] EXCEPT
        !.W = IF Key(id, "W") \in DOMAIN Ga
              THEN [o \in 1..2 |-> [j \in 1..2 |-> @[o][j] - Ga[Key(id, "W")][2 * (o - 1) + j]]] ELSE @,
        !.b = IF Key(id, "b") \in DOMAIN Ga THEN RowSub(@, Ga[Key(id, "b")]) ELSE @]]

Init == /\ hist = <<>>
        /\ PP = P0
        /\ GG = NoGrads
        /\ BB = <<>>
        /\ m \in 1..Len(Models)
        /\ evs = <<>>
        /\ used = {}

Fw == /\ Len(BB) < MaxB
      /\ BB' = Append(BB, Inputs[Len(BB) + 1])
      /\ hist' = Append(hist, [a |-> "fwd"])
      /\ UNCHANGED <<PP, GG, m, evs, used>>
Pr == /\ Len(BB) > 0
      /\ \A j \in 1..Len(hist) : hist[j].a # "pred"
      /\ hist' = Append(hist, [a |-> "pred"])
      /\ UNCHANGED <<PP, GG, BB, m, evs, used>>
Contrib(b) == Bwd(Models[m], PP, BB[b], DY(Len(BB[b].r), b)).g
Bw(b) == /\ b \notin used
         /\ GG' = GAdd(GG, Contrib(b))
         /\ evs' = Append(evs, Contrib(b))
         /\ used' = used \cup {b}
         /\ hist' = Append(hist, [a |-> "bwd", b |-> b])
         /\ UNCHANGED <<PP, BB, m>>
Inc == LET g == <<Grad(2, "b", <<5, -3>>)>> IN
       /\ \A j \in 1..Len(hist) : hist[j].a # "inc"
       /\ GG' = GAdd(GG, g)
       /\ evs' = Append(evs, g)
       /\ hist' = Append(hist, [a |-> "inc"])
       /\ UNCHANGED <<PP, BB, m, used>>
Upd == /\ PP' = Eager(Update(PP, GG))
       /\ GG' = Eager([k \in DOMAIN GG |-> Zeros(Len(GG[k]))])
       /\ BB' = <<>>
       /\ evs' = <<>>
       /\ used' = {}
       /\ hist' = Append(hist, [a |-> "upd"])
       /\ UNCHANGED m
Next == /\ Len(hist) < MaxLen
        /\ (Fw \/ Pr \/ Inc \/ Upd \/ \E b \in 1..Len(BB) : Bw(b))
        /\ (Emit /\ Len(hist') = MaxLen /\ m = 1) => PrintT("@@RUN " \o ToJson([h |-> hist']))
Spec == Init /\ [][Next]_vars

\* Sum of all contributions, in reverse order of their arrival
RECURSIVE SumRev(_, _)
SumRev(k, acc) == IF k = 0 THEN acc ELSE SumRev(k - 1, GAdd(acc, evs[k]))
GradIsSum == LET S == SumRev(Len(evs), NoGrads) IN
  /\ DOMAIN S \subseteq DOMAIN GG
  /\ \A k \in DOMAIN GG : IF k \in DOMAIN S THEN GG[k] = S[k] ELSE \A j \in 1..Len(GG[k]) : GG[k][j] = 0
ParamsOnlyInUpdates == [][PP' # PP => hist'[Len(hist')].a = "upd"]_vars
UpdateConsumes == [][hist'[Len(hist')].a = "upd" =>
   \A k \in DOMAIN GG' : \A j \in 1..Len(GG'[k]) : GG'[k][j] = 0]_vars
=============================================================================
