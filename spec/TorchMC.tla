------------------------------ MODULE TorchMC ------------------------------
(***************************************************************************)
(* Design checks of Torch: gradients are exact (central differences of     *)
(* polynomials of degree two in each direction), and every history of      *)
(* passes, updates, saves, loads and scopes keeps the account right.       *)
(***************************************************************************)
EXTENDS Torch
CONSTANTS MaxSteps, MaxPasses
VARIABLES mod, st, passes, owed, steps, last
vars == <<mod, st, passes, owed, steps, last>>
In(i) == [k |-> "in", i |-> i]
Lin(e) == [k |-> "lin", W |-> "W", b |-> "b", s |-> <<e>>]
Scale(e) == [k |-> "scale", p |-> "p", s |-> <<e>>]
Two(op, e, f) == [k |-> op, s |-> <<e, f>>]
P0 == [W |-> <<<<1, -2>>, <<3, 1>>>>, b |-> <<<<1, -1>>>>, p |-> <<<<2, -1>>>>, r |-> <<<<5, 5>>>>, E |-> <<<<1, 2>>, <<-1, 0>>>>]
Modules == {
  <<Lin(In(1))>>, <<Scale(Lin(In(1)))>>, <<Two("mul", In(1), In(2))>>, <<Two("add", Scale(In(1)), Lin(In(2)))>>,
  <<Scale(In(1)), Two("mul", In(1), In(2))>>, <<[k |-> "rows", p |-> "E", i |-> 3]>>,
  <<Two("mul", [k |-> "rows", p |-> "E", i |-> 3], In(1)), [k |-> "shift", p |-> "b", s |-> <<In(2)>>]>>,
  <<[k |-> "mode", a |-> 2, b |-> 3, s |-> <<Lin(In(1))>>]>>, <<Two("mul", Scale(In(1)), Scale(In(1)))>>, <<Lin(Lin(In(1)))>> }
Xs == {<< <<<<1, 2>>, <<-1, 3>>>>, <<<<0, 1>>, <<2, -2>>>>, <<<<1>>, <<0>>>> >>}
D == <<<<1, -1>>, <<2, 0>>>>
Frozen == {"b"}
\* ---------------------------------------------------------------- slopes
Dot(A, B) == Total([r \in Idx(A) |-> Total([j \in Idx(A[r]) |-> A[r][j] * B[r][j]])])
Cell(A, r, j, v) == [A EXCEPT ![r][j] = @ + v]
DotAll(M, P, X, ds) == Total([j \in Idx(M) |-> Dot(Outputs(M, P, X, TRUE)[j], ds[j])])
Slopes ==
  \A M \in Modules, X \in Xs :
    LET ds == [j \in Idx(M) |-> IF j = 1 THEN D ELSE <<<<3, 1>>, <<-1, 1>>>>]
        g == Grads(M, P0, X, ds)
    IN /\ \A q \in {1, 2}, r \in 1..2, j \in 1..2 :
            2 * g.x[q][r][j] = DotAll(M, P0, [X EXCEPT ![q] = Cell(@, r, j, 1)], ds) - DotAll(M, P0, [X EXCEPT ![q] = Cell(@, r, j, -1)], ds)
       /\ IsZero(g.x[3])
       /\ \A nm \in DOMAIN P0 : \A r \in Idx(P0[nm]), j \in 1..2 :
            2 * g.p[nm][r][j] = DotAll(M, [P0 EXCEPT ![nm] = Cell(@, r, j, 1)], X, ds) - DotAll(M, [P0 EXCEPT ![nm] = Cell(@, r, j, -1)], X, ds)
       /\ \A nm \in DOMAIN P0 : nm \notin NamesOf(M) => IsZero(g.p[nm])
       /\ \A q \in {1, 2} : (\A j \in Idx(M) : q \notin Reads(M[j])) => IsZero(g.x[q])
ASSUME Slopes
\* -------------------------------------------------------------- histories
X1 == CHOOSE X \in Xs : TRUE
Grad1(M, P) == Grads(M, P, X1, [j \in Idx(M) |-> D]).p
Small(P) == \A nm \in DOMAIN P : \A r \in Idx(P[nm]) : \A j \in Idx(P[nm][r]) : P[nm][r][j] \in -10000..10000
Init == /\ mod \in {<<Lin(In(1))>>, <<Scale(In(1)), Two("mul", In(1), In(2))>>, <<[k |-> "rows", p |-> "E", i |-> 3]>>, <<[k |-> "mode", a |-> 2, b |-> 3, s |-> <<Scale(Lin(In(1)))>>]>>}
        /\ st = Fresh(P0) /\ passes = 0 /\ owed = NoGrad(P0) /\ steps = 0 /\ last = "start"
Pass == passes < MaxPasses /\ passes' = passes + 1 /\ last' = "pass" /\ UNCHANGED <<mod, st, owed>>
BackP == /\ passes > 0 /\ passes' = passes - 1 /\ last' = "back"
         /\ st' = Accumulate(st, mod, Grad1(mod, st.p), Frozen)
         /\ owed' = [nm \in DOMAIN P0 |-> IF nm \in Frozen THEN owed[nm] ELSE Plus(owed[nm], Grad1(mod, st.p)[nm])]
         /\ UNCHANGED mod
Upd == st' = Update(st) /\ owed' = NoGrad(P0) /\ passes' = 0 /\ last' = "update" /\ UNCHANGED mod
SaveA == st' = Save(st) /\ last' = "save" /\ UNCHANGED <<mod, passes, owed>>
LoadA == st' = Load(st) /\ passes' = 0 /\ last' = "load" /\ UNCHANGED <<mod, owed>>
EnterA == /\ Len(st.stack) < 2 /\ \E Q \in {[W |-> <<<<0, 1>>, <<1, 0>>>>], [p |-> <<<<7, 7>>>>, b |-> <<<<0, 0>>>>]} : st' = Enter(st, Q)
          /\ passes' = 0 /\ last' = "enter" /\ UNCHANGED <<mod, owed>>
ExitA == st.stack # <<>> /\ st' = Exit(st) /\ passes' = 0 /\ last' = "exit" /\ UNCHANGED <<mod, owed>>
Next == steps < MaxSteps /\ steps' = steps + 1 /\ (Pass \/ BackP \/ Upd \/ SaveA \/ LoadA \/ EnterA \/ ExitA)
Spec == Init /\ [][Next]_vars
Bounded == Small(st.p) /\ Small(st.g)
\* the gradients are what is owed; hot names and only those may have one
Account == st.g = owed /\ \A nm \in DOMAIN P0 : ~IsZero(st.g[nm]) => nm \in st.hot
\* what takes no part never changes, outside of scopes
Untouched == st.stack = <<>> => /\ st.p["r"] = P0["r"]
                                /\ \A nm \in DOMAIN P0 : (nm \notin NamesOf(mod) \/ nm \in Frozen) => st.p[nm] = st.saved[nm] \/ st.saved # P0
\* updates, loads and scopes change parameters, passes do not
OnlyThese == [][st'.p # st.p => last' \in {"update", "load", "enter", "exit"}]_vars
Undone == [][last' = "exit" => st'.p = st.stack[Len(st.stack)] /\ Len(st'.stack) = Len(st.stack) - 1]_vars
Restored == [][last' = "load" => st'.p = st.saved]_vars
Consumed == [][last' = "update" => st'.p = [nm \in DOMAIN P0 |-> Minus(st.p[nm], owed[nm])] /\ st'.g = NoGrad(P0)]_vars
=============================================================================
