----------------------------- MODULE PurityTrace -----------------------------
(***************************************************************************)
(* Purity of passes, for any layer whatever it computes.                   *)
(*                                                                         *)
(* Layers are uninterpreted here: what batch b gives when it is run alone  *)
(* on an identical model (output, prediction, input gradient, parameter    *)
(* gradients) is part of the recorded case.  The machine then accepts any  *)
(* schedule of forward passes, predictions and backward callbacks over     *)
(* several batches only when every step gives what the batch gives alone,  *)
(* parameter gradients are the sum of the contributions of the callbacks   *)
(* made so far, and nothing owned by somebody else was written to.         *)
(*                                                                         *)
(* Numbers are observed floats times Scale, compared with a tolerance.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, i, G, v
vars == <<c, i, G, v>>

Abs(a) == IF a < 0 THEN -a ELSE a
Huge == 1073741824     \* numbers beyond this were not finite, or too large to scale
Sat(a) == IF Abs(a) >= Huge THEN 2147483646 ELSE a
Add(a, b) == IF Abs(a) >= Huge \/ Abs(b) >= Huge THEN 2147483646 ELSE Sat(a + b)
Close(a, b) == IF Abs(a) >= Huge \/ Abs(b) >= Huge THEN Sat(a) = Sat(b) ELSE Abs(a - b) <= 10 + (Abs(a) \div 400)
SeqClose(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : Close(a[j], b[j])
SameValue(a, b) == a.s = b.s /\ SeqClose(a.v, b.v)

\* gradients: sequence of [k |-> key, v |-> numbers] as a function
Fun(gs) == [k \in {gs[j].k : j \in 1..Len(gs)} |-> gs[CHOOSE j \in 1..Len(gs) : gs[j].k = k].v]
Plus(F, H) == [k \in DOMAIN F \cup DOMAIN H |->
                 IF k \in DOMAIN F /\ k \in DOMAIN H THEN [j \in 1..Len(F[k]) |-> Add(F[k][j], H[k][j])]
                 ELSE IF k \in DOMAIN F THEN F[k] ELSE H[k]]
GradsAre(obs, F) == LET O == Fun(obs) IN
   DOMAIN O = DOMAIN F /\ \A k \in DOMAIN O : SeqClose(O[k], F[k])
Empty == [k \in {} |-> <<>>]

Check(cs, x, g) ==
  LET al == cs.alone[x.b] IN
  CASE x.a = "exc" -> "unexpected exception in " \o x.in \o ": " \o x.e
    [] x.dirty # <<>> -> x.a \o " modified " \o x.dirty[1]
    [] x.a = "fwd" /\ ~SameValue(x.y, al.y) -> "output differs from the batch run alone"
    [] x.a = "pred" /\ ~SameValue(x.y, al.p) -> "prediction differs from the batch run alone"
    [] x.a = "pred" /\ ~cs.drop /\ ~SameValue(x.y, al.y) -> "prediction differs from the training-time forward pass"
    [] x.a \in {"fwd", "pred"} /\ ~GradsAre(x.g, g) -> x.a \o " changed gradients"
    [] x.a = "bwd" /\ ~SameValue(x.dx, al.dx) -> "input gradient differs from the batch run alone"
    [] x.a = "bwd" /\ ~GradsAre(x.g, Plus(g, Fun(al.g))) -> "parameter gradients are not the sum of the contributions"
    [] OTHER -> "ok"

Init == /\ c \in 1..Len(Cases)
        /\ i = 0
        /\ G = Empty
        /\ v = "ok"
Next == /\ v = "ok"
        /\ i < Len(Cases[c].steps)
        /\ LET x == Cases[c].steps[i + 1] IN
             /\ v' = Check(Cases[c], x, G)
             /\ G' = IF x.a = "bwd" /\ v' = "ok" THEN Plus(G, Fun(Cases[c].alone[x.b].g)) ELSE G
             /\ IF v' # "ok" THEN PrintT("@@BAD " \o ToJson([case |-> c, step |-> i + 1, clause |-> v'])) ELSE TRUE
        /\ i' = i + 1
        /\ c' = c
Spec == Init /\ [][Next]_vars
View == <<c, i, v>>
Final == TLCGet("distinct") >= 0 /\ PrintT("@@DONE " \o ToString(Len(Cases)))
=============================================================================
