----------------------------- MODULE RecurrentMC -----------------------------
(***************************************************************************)
(* Design checks of the batched algorithm and of the equations.            *)
(*                                                                         *)
(* 1. The algorithm processes the steps of all sequences that have them at *)
(*    once (time-major, without padding), keeping a state per sequence:    *)
(*    after every step, for every mixture of lengths and both directions,  *)
(*    each state has read exactly the sequence's own steps so far, in the  *)
(*    order of processing; the backward pass hands the gradient of every   *)
(*    step to exactly the steps that it read.  Symbolic: a state is the    *)
(*    sequence of the steps read; inputs are numbered.                     *)
(* 2. For saturated gates the equations are a Boolean latch.               *)
(* 3. The backward equations are the derivatives of the forward ones       *)
(*    (central differences).                                               *)
(***************************************************************************)
EXTENDS Recurrent, FiniteSets
CONSTANTS MaxB, MaxLen, Small
VARIABLES lens, d, t, state, out, back, carry, phase, pt
vars == <<lens, d, t, state, out, back, carry, phase, pt>>
Desc(s) == \A j \in 1..(Len(s) - 1) : s[j] >= s[j + 1]
T == lens[1]
B == Len(lens)
Size(k) == Cardinality({b \in 1..B : lens[b] >= k})   \* sequences that have step k
Order(k) == IF d = 1 THEN k ELSE T + 1 - k               \* the k-th step processed
Name(b, k) == b * 100 + k
Init == lens = <<>> /\ d = 0 /\ t = 0 /\ state = <<>> /\ out = <<>> /\ back = <<>> /\ carry = <<>> /\ phase = "start" /\ pt = <<>>
Choose == /\ phase = "start"
          /\ \/ /\ \E n \in 1..MaxB : \E s \in {s \in [1..n -> 1..MaxLen] : Desc(s)}, dir \in {1, 2} :
                     /\ lens' = s /\ d' = dir
                     /\ state' = [b \in 1..n |-> <<>>]
                     /\ out' = [b \in 1..n |-> [k \in 1..s[b] |-> <<>>]]
                     /\ back' = [b \in 1..n |-> [k \in 1..s[b] |-> {}]]
                     /\ carry' = [b \in 1..n |-> {}]
                /\ phase' = "forward" /\ pt' = <<>>
             \/ /\ phase' = "latch" /\ pt' \in [1..3 -> [f : BOOLEAN, i : BOOLEAN, o : BOOLEAN, v : BOOLEAN]] /\ UNCHANGED <<lens, d, state, out, back, carry>>
             \/ /\ phase' = "slopes" /\ pt' \in [p : 1..8, dirs : 1..2] /\ UNCHANGED <<lens, d, state, out, back, carry>>
          /\ t' = 0
\* in a second step, so that several workers share the work
Slopes == /\ phase = "slopes" /\ phase' = "slope"
          /\ \E x \in [1..2 -> Small], dy \in Small \ {0}, at \in 1..14 : pt' = pt @@ [x |-> x, dy |-> dy, at |-> at]
          /\ UNCHANGED <<lens, d, t, state, out, back, carry>>
Forward == /\ phase = "forward" /\ t < T
           /\ t' = t + 1
           /\ LET k == Order(t + 1)  n == Size(k)
                  new == [b \in 1..B |-> IF b <= n THEN Append(state[b], Name(b, k)) ELSE state[b]]
              IN state' = new /\ out' = [b \in 1..B |-> IF b <= n THEN [out[b] EXCEPT ![k] = new[b]] ELSE out[b]]
           /\ phase' = IF t + 1 = T THEN "backward" ELSE "forward"
           /\ UNCHANGED <<lens, d, back, carry, pt>>
\* gradients carry the set of outputs they come from
Backw == /\ phase = "backward" /\ t > 0
         /\ t' = t - 1
         /\ LET k == Order(t)  n == Size(k)
                got == [b \in 1..n |-> {Name(b, k)} \cup carry[b]]
            IN /\ back' = [b \in 1..B |-> IF b <= n THEN [back[b] EXCEPT ![k] = got[b]] ELSE back[b]]
               \* the step before has a row for the sequence, or the sequence started here
               /\ carry' = [b \in 1..B |-> IF b > n THEN carry[b]
                                           ELSE IF t > 1 /\ b <= Size(Order(t - 1)) THEN got[b] ELSE {}]
         /\ UNCHANGED <<lens, d, state, out, phase, pt>>
Next == Choose \/ Slopes \/ Forward \/ Backw
Spec == Init /\ [][Next]_vars
Own(b, k) == IF d = 1 THEN [j \in 1..k |-> Name(b, j)] ELSE [j \in 1..(lens[b] + 1 - k) |-> Name(b, lens[b] + 1 - j)]
ReadsOwnSteps == phase \in {"forward", "backward"} => \A b \in 1..B : \A k \in 1..lens[b] : out[b][k] \in {<<>>, Own(b, k)}
AllComputed == phase = "backward" => \A b \in 1..B : \A k \in 1..lens[b] : out[b][k] = Own(b, k)
Reads(b, k, j) == \E q \in 1..Len(out[b][k]) : out[b][k][q] = Name(b, j)
GradientsReturn == (phase = "backward" /\ t = 0) => \A b \in 1..B : \A j \in 1..lens[b] : back[b][j] = {Name(b, k) : k \in {k \in 1..lens[b] : Reads(b, k, j)}}

\* a latch with inputs that open or close the gates completely
High == 12 * S
Sat(bit) == IF bit THEN High ELSE -High
Ident(n, j) == [q \in 1..n |-> IF q = j THEN S ELSE 0]
LatchP == <<<<[x |-> [g \in Gates |-> <<Ident(4, g)>>], h |-> [g \in Gates |-> <<<<0>>>>], b |-> [g \in Gates |-> <<0>>], h0 |-> <<0>>, c0 |-> <<0>>]>>>>
\* candidates are -1 or 1; the cell counts up or down, the output is tanh of the cell or nothing
RECURSIVE Latch(_, _)
Latch(s, k) == IF k = 0 THEN 0 ELSE (IF s[k].f THEN Latch(s, k - 1) ELSE 0) + (IF s[k].i THEN (IF s[k].v THEN S ELSE -S) ELSE 0)
LatchOK == phase = "latch" =>
  LET y == Output(LatchP, [k \in 1..3 |-> <<Sat(pt[k].f), Sat(pt[k].i), Sat(pt[k].o), Sat(pt[k].v)>>])
  IN \A k \in 1..3 : FAbs(y[k][1] - (IF pt[k].o THEN FTanh(Latch(pt, k)) ELSE 0)) <= 40

\* slopes: one unit, one input, two steps; parameters from a small table
Tab == <<S, -S, S \div 2, -S \div 2, 2 * S, 0, S + S \div 4, -2 * S>>
Pick(j) == Tab[(j % 8) + 1]
OneP(k) == [x |-> [g \in Gates |-> <<<<Pick(k + g)>>>>], h |-> [g \in Gates |-> <<<<Pick(3 * k + g)>>>>], b |-> [g \in Gates |-> <<Pick(k * g)>>], h0 |-> <<Pick(k + 5)>>, c0 |-> <<Pick(k + 2)>>]
SlopeP == IF pt.dirs = 1 THEN <<<<OneP(pt.p)>>>> ELSE <<<<OneP(pt.p), OneP(pt.p + 3)>>>>
H == 2048
\* move parameter or input number at by e
Moved(e) == [SlopeP EXCEPT ![1][1] = IF pt.at <= 4 THEN [@ EXCEPT !.x[pt.at][1][1] = @ + e]
                                     ELSE IF pt.at <= 8 THEN [@ EXCEPT !.h[pt.at - 4][1][1] = @ + e]
                                     ELSE IF pt.at <= 12 THEN [@ EXCEPT !.b[pt.at - 8][1] = @ + e] ELSE @]
Xs(e) == <<<<pt.x[1] + (IF pt.at = 13 THEN e ELSE 0)>>, <<pt.x[2] + (IF pt.at = 14 THEN e ELSE 0)>>>>
DYs == [k \in 1..2 |-> [q \in 1..pt.dirs |-> IF k = 1 THEN S \div 2 ELSE pt.dy]]
Val(e) == LET y == Output(Moved(e), Xs(e)) IN FSum([k \in 1..2 |-> FDot(y[k], DYs[k])])
SlopeOK == phase = "slope" =>
  LET r == Backward(SlopeP, Xs(0), DYs)
      g == IF pt.at <= 4 THEN r.g[1][1].x[pt.at][1][1] ELSE IF pt.at <= 8 THEN r.g[1][1].h[pt.at - 4][1][1]
           ELSE IF pt.at <= 12 THEN r.g[1][1].b[pt.at - 8][1] ELSE r.dx[pt.at - 12][1]
  IN FAbs((Val(H) - Val(-H)) * 16 - g) <= 700
=============================================================================
