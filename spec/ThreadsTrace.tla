---------------------------- MODULE ThreadsTrace ----------------------------
(***************************************************************************)
(* Recorded steps of concurrent threads, in the order in which they ended, *)
(* against Threads.                                                        *)
(***************************************************************************)
EXTENDS Threads, Json, IOUtils
VARIABLES c, i, st, v
Cases == JsonDeserialize(IOEnv.CASES)
None == [none |-> TRUE]
Start(cs) == [th |-> [t \in 1..cs.nt |-> NewThread], md |-> [m \in 1..cs.nm |-> None], ids |-> {}, sids |-> {}]
ToSet(s) == {s[j] : j \in 1..Len(s)}
Fresh(s, old) == Cardinality(ToSet(s)) = Len(s) /\ ToSet(s) \cap old = {}
Exec(cs, s, x) ==
  LET bad(why) == [st |-> s, v |-> why \o " (" \o x.op \o ", " \o cs.how \o ")"]
      s1 == [s EXCEPT !.ids = @ \cup ToSet(x.ids), !.sids = @ \cup ToSet(x.sids)]
      th == s.th[x.t]
      setTh(n) == [st |-> [s1 EXCEPT !.th[x.t] = Eager(n)], v |-> "ok"]
      shows(m) == x.W = m.W /\ x.b = m.b /\ x.gW = m.g.W /\ x.gb = m.g.b
      setMd(m) == IF shows(m) THEN [st |-> [s1 EXCEPT !.md[x.m] = Eager(m)], v |-> "ok"] ELSE bad("parameters or gradients")
  IN
  IF x.exc # "" THEN bad("raised " \o x.exc)
  ELSE IF ~Fresh(x.ids, s.ids) THEN bad("identity of a model given twice")
  ELSE IF ~Fresh(x.sids, s.sids) THEN bad("identity of a shim given twice")
  ELSE IF \E j \in 1..Len(x.mops) : x.mops[j] # th.set.ops THEN bad("backend of a new model")
  ELSE CASE x.op = "enter" -> setTh(Enter(th, x.k, x.v))
    [] x.op = "leave" -> IF x.swallowed THEN bad("exception swallowed") ELSE setTh(Leave(th))
    [] x.op = "set" -> setTh(SetOps(th, x.v))
    [] x.op \in {"start", "burst"} -> setTh(th)
    [] x.op = "look" ->
         IF x.ops # th.set.ops THEN bad("backend")
         ELSE IF x.on # th.set.on THEN bad("operators")
         ELSE IF x.val # th.set.val THEN bad("validation")
         ELSE setTh(th)
    [] x.op = "zoo" -> IF x.same THEN setTh(th) ELSE bad("differs from what it gives alone: " \o x.v)
    [] x.op = "create" -> setMd(NewModel(x.W, x.b))
    [] x.op = "copy" -> setMd(CopyOf(s.md[x.src]))
    [] x.op = "predict" -> IF x.Y # Out(s.md[x.m], x.X) THEN bad("result") ELSE setMd(s.md[x.m])
    [] x.op = "begin" -> IF x.Y # Out(s.md[x.m], x.X) THEN bad("result") ELSE setMd(Begin(s.md[x.m], x.X))
    [] x.op = "back" -> IF x.Y # BackX(s.md[x.m], x.X) THEN bad("gradient of the input") ELSE setMd(Back(s.md[x.m], x.j, x.X))
    [] x.op = "finish" -> setMd(Finish(s.md[x.m]))
    [] x.op = "lend" -> setMd(Lend(s.md[x.m], x.v.W, x.v.b))
    [] x.op = "restore" -> IF x.swallowed THEN bad("exception swallowed") ELSE setMd(Restore(s.md[x.m]))
INSTANCE TraceMachine
=============================================================================
