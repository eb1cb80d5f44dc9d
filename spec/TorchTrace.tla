----------------------------- MODULE TorchTrace -----------------------------
(* Recorded histories of wrapped modules against Torch. *)
EXTENDS Torch, Json, IOUtils
VARIABLES c, i, st, v
Cases == JsonDeserialize(IOEnv.CASES)
Start(cs) == [s |-> Fresh(cs.P), keys |-> {}]
Elems(q) == {q[j] : j \in 1..Len(q)}
Exec(cs, t, x) ==
  LET s == t.s
      frozen == Elems(cs.frozen)
      bad(why) == [st |-> t, v |-> why \o " (" \o x.op \o ", " \o cs.how \o ")"]
      \* what every step shows: all parameters and gradients
      params(n) == x.P = n.p
      grads(n) == \A nm \in DOMAIN n.g : IF x.G[nm].has THEN x.G[nm].v = n.g[nm] ELSE IsZero(n.g[nm])
      with(n, keys) ==
        IF x.dirty # <<>> THEN bad("modified " \o x.dirty[1])
        ELSE IF ~params(n) THEN bad("parameters")
        ELSE IF ~grads(n) THEN bad("gradients of the parameters")
        ELSE [st |-> [s |-> Eager(n), keys |-> keys], v |-> "ok"]
      to(n) == with(n, t.keys)
      modes(train) == \A j \in Idx(x.modes) : x.modes[j] = train
      \* calls of the optimizer, and the names of the parameters they were for
      keys == t.keys \cup {<<x.calls[j].nm, x.calls[j].key>> : j \in Idx(x.calls)}
      called(nm) == Cardinality({j \in Idx(x.calls) : x.calls[j].nm = nm})
      distinct == \A a \in keys, b \in keys : (a[1] = b[1]) <=> (a[2] = b[2])
  IN
  IF x.exc # "" THEN bad("raised " \o x.exc)
  ELSE CASE x.op \in {"train", "eval"} ->
         LET train == x.op = "train"
             Y == Outputs(cs.M, s.p, x.X, train)
         IN IF x.form # x.want THEN bad("container of the result")
            ELSE IF x.Y # Y THEN bad("result")
            ELSE IF x.kinds # x.wantkinds THEN bad("type of the result")
            ELSE IF ~modes(train) THEN bad("mode of the module")
            ELSE to(s)
    [] x.op = "back" ->
         LET g == Grads(cs.M, s.p, x.X, x.ds)
             okay(q) == IF x.dX[q].none THEN IsZero(g.x[q]) ELSE x.dX[q].v = g.x[q]
         IN IF x.form # x.want THEN bad("container of the gradient")
            ELSE IF \E q \in Idx(x.X) : ~okay(q) THEN bad("gradient of the input")
            ELSE IF x.kinds # x.wantkinds THEN bad("type of the gradient")
            ELSE to(Accumulate(s, cs.M, g.p, frozen))
    [] x.op = "update" ->
         IF \E j \in Idx(x.calls) : x.calls[j].nm \notin DOMAIN s.p THEN bad("unknown parameter")
         ELSE IF \E nm \in DOMAIN s.p : called(nm) > 1 \/ (nm \in s.hot /\ called(nm) = 0) \/ (nm \in frozen /\ called(nm) > 0) THEN bad("calls of the optimizer")
         ELSE IF \E j \in Idx(x.calls) : x.calls[j].g # s.g[x.calls[j].nm] \/ x.calls[j].w # s.p[x.calls[j].nm] THEN bad("arguments of the optimizer")
         ELSE IF ~distinct THEN bad("keys of the optimizer")
         ELSE with(Update(s), keys)
    [] x.op = "save" -> to(Save(s))
    [] x.op = "load" -> to(Load(s))
    [] x.op = "enter" -> to(Enter(s, x.Q))
    [] x.op = "exit" -> to(Exit(s))
    \* another wrapper of the same structure that loaded what was saved
    [] x.op = "other" ->
         IF x.PO # s.saved THEN bad("parameters that another one loaded")
         ELSE IF x.Y # Outputs(cs.M, s.saved, x.X, FALSE) THEN bad("result of another one that loaded it")
         ELSE to(s)
    \* a copy, which was trained afterwards
    [] x.op = "copy" ->
         IF x.PO # s.p THEN bad("parameters of the copy")
         ELSE IF ~distinct THEN bad("keys of the optimizer")
         ELSE with(s, keys)
INSTANCE TraceMachine
=============================================================================
