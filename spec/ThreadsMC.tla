------------------------------ MODULE ThreadsMC ------------------------------
(***************************************************************************)
(* Design checks of Threads.  Identities are drawn from a counter in three *)
(* atomic steps (read, write, read again) between taking and releasing a   *)
(* lock; settings are kept for each thread; every thread works on a model  *)
(* of its own.  In every interleaving, identities are distinct, the        *)
(* settings of a thread and what its model gives are those of its own      *)
(* history alone, and no thread is blocked for ever.                       *)
(* With Locked = FALSE identities are given twice; with PerThread = FALSE  *)
(* (one store of settings for all, saved and restored by scopes) settings  *)
(* leak: TLC finds both (not part of the registered checks).               *)
(***************************************************************************)
EXTENDS Threads
CONSTANTS NT, MaxOps, Locked, PerThread
VARIABLES count, lock, pc, tmp, ids, th, md, hist, live
vars == <<count, lock, pc, tmp, ids, th, md, hist, live>>
T == 1..NT
Place(t) == IF PerThread THEN t ELSE 1
Mine(t) == th[Place(t)]
W0 == <<<<1, 2>>>>
W1 == <<<<3, -1>>>>
X0 == <<<<1, 1>>, <<2, 0>>>>
D0 == <<<<1>>, <<-1>>>>
Begins == /\ count = 0 /\ lock = 0 /\ ids = <<>>
          /\ pc = [t \in T |-> "idle"] /\ tmp = [t \in T |-> 0]
          /\ th = [t \in T |-> NewThread] /\ md = [t \in T |-> NewModel(W0, <<t>>)]
          /\ hist = [t \in T |-> <<>>] /\ live = {1}
Did(t, e) == hist' = [hist EXCEPT ![t] = Append(@, e)]
Can(t) == t \in live /\ pc[t] = "idle" /\ Len(hist[t]) < MaxOps
EnterOp(t) == /\ Can(t) /\ Len(Mine(t).stack) < 2
              /\ \E e \in {[k |-> "ops", v |-> "A"], [k |-> "val", v |-> TRUE], [k |-> "on", v |-> <<"f", "", "">>]} :
                   /\ th' = [th EXCEPT ![Place(t)] = Enter(Mine(t), e.k, e.v)]
                   /\ Did(t, [o |-> "enter", k |-> e.k, v |-> e.v])
              /\ UNCHANGED <<count, lock, pc, tmp, ids, md, live>>
LeaveOp(t) == /\ Can(t) /\ Mine(t).stack # <<>>
              /\ th' = [th EXCEPT ![Place(t)] = Leave(Mine(t))]
              /\ Did(t, [o |-> "leave"])
              /\ UNCHANGED <<count, lock, pc, tmp, ids, md, live>>
Spawn(t) == /\ Can(t) /\ \E u \in T \ live : live' = live \cup {u}
            /\ UNCHANGED <<count, lock, pc, tmp, ids, th, md, hist>>
\* creation of a model
Take(t) == /\ Can(t) /\ (Locked => lock = 0) /\ lock' = (IF Locked THEN t ELSE lock)
           /\ pc' = [pc EXCEPT ![t] = "read"] /\ Did(t, [o |-> "create"])
           /\ UNCHANGED <<count, tmp, ids, th, md, live>>
Read(t) == /\ pc[t] = "read" /\ tmp' = [tmp EXCEPT ![t] = count] /\ pc' = [pc EXCEPT ![t] = "write"]
           /\ UNCHANGED <<count, lock, ids, th, md, hist, live>>
Write(t) == /\ pc[t] = "write" /\ count' = tmp[t] + 1 /\ pc' = [pc EXCEPT ![t] = "name"]
            /\ UNCHANGED <<lock, tmp, ids, th, md, hist, live>>
Name(t) == /\ pc[t] = "name" /\ ids' = Append(ids, count) /\ pc' = [pc EXCEPT ![t] = "idle"]
           /\ lock' = (IF Locked THEN 0 ELSE lock)
           /\ UNCHANGED <<count, tmp, th, md, hist, live>>
Run(m, o) == CASE o = "begin" -> Begin(m, X0) [] o = "back" -> [Back(m, Len(m.xs), D0) EXCEPT !.xs = <<>>]
               [] o = "finish" -> [Finish(m) EXCEPT !.xs = <<>>] [] o = "lend" -> [Lend(m, W1, <<0>>) EXCEPT !.xs = <<>>]
               [] o = "restore" -> [Restore(m) EXCEPT !.xs = <<>>]
Runs(m) == {"begin"} \cup (IF m.xs # <<>> THEN {"back"} ELSE {}) \cup (IF m.stack # <<>> THEN {"restore"} ELSE {"lend", "finish"})
RunOp(t) == /\ Can(t)
            /\ \E o \in Runs(md[t]) : md' = [md EXCEPT ![t] = Eager(Run(md[t], o))] /\ Did(t, [o |-> o])
            /\ UNCHANGED <<count, lock, pc, tmp, ids, th, live>>
Step(t) == EnterOp(t) \/ LeaveOp(t) \/ Take(t) \/ Read(t) \/ Write(t) \/ Name(t) \/ RunOp(t)
Next == \E t \in T : Step(t) \/ Spawn(t)
Spec == Begins /\ [][Next]_vars
\* what the thread would have alone
RECURSIVE Alone(_, _)
Alone(h, n) == IF n = 0 THEN NewThread ELSE LET p == Alone(h, n - 1)  e == h[n] IN
  CASE e.o = "enter" -> Enter(p, e.k, e.v) [] e.o = "leave" -> Leave(p) [] OTHER -> p
RECURSIVE AloneModel(_, _, _)
AloneModel(t, h, n) == IF n = 0 THEN NewModel(W0, <<t>>) ELSE LET p == AloneModel(t, h, n - 1)  e == h[n] IN
  IF e.o \in {"begin", "back", "finish", "lend", "restore"} THEN Run(p, e.o) ELSE p
Distinct == \A i \in 1..Len(ids) : \A j \in 1..Len(ids) : ids[i] = ids[j] => i = j
Isolated == \A t \in T : Mine(t) = Alone(hist[t], Len(hist[t]))
Undisturbed == \A t \in T : md[t] = AloneModel(t, hist[t], Len(hist[t]))
\* outside of all scopes, everything is as it was
Clean == \A t \in T : Mine(t).stack = <<>> => Mine(t).set = Default
Lent == \A t \in T : (md[t].stack = <<>> /\ ~\E i \in 1..Len(hist[t]) : hist[t][i].o = "finish") => md[t].W = W0
NotBlocked == \A t \in T : pc[t] # "idle" => ENABLED Step(t)
LockFree == lock = 0 \/ pc[lock] # "idle"
=============================================================================
