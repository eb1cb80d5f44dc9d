---------------------------- MODULE TraceMachine ----------------------------
(***************************************************************************)
(* Validation of recorded traces, for any specification.                   *)
(*                                                                         *)
(* A case is a record with a field "steps".  Start(case) is the abstract   *)
(* state before the first step; Exec(case, state, step) is a record        *)
(* [st |-> next state, v |-> "ok" or the clause that the step breaks].     *)
(* Every case is a behaviour of this machine; one that breaks a clause     *)
(* stops there and is reported.  (Cases is a parameter because TLC         *)
(* evaluates a constant definition once only in the root module.)          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Cases, Start(_), Exec(_, _, _)
VARIABLES c, i, st, v

Init == /\ c \in 1..Len(Cases)
        /\ i = 0
        /\ st = Start(Cases[c])
        /\ v = "ok"
Next == /\ v = "ok"
        /\ i < Len(Cases[c].steps)
        /\ LET r == Exec(Cases[c], st, Cases[c].steps[i + 1]) IN
             /\ v' = r.v
             /\ st' = r.st
             /\ IF r.v # "ok" THEN PrintT("@@BAD " \o ToJson([case |-> c, step |-> i + 1, clause |-> r.v])) ELSE TRUE
        /\ i' = i + 1
        /\ c' = c
Spec == Init /\ [][Next]_<<c, i, st, v>>
View == <<c, i, v>>
Final == TLCGet("distinct") >= 0 /\ PrintT("@@DONE " \o ToString(Len(Cases)))
=============================================================================
