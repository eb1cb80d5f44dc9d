--------------------------- MODULE ModelStoreTrace ---------------------------
(***************************************************************************)
(* Conformance run of ModelStore: every recorded operation must have the   *)
(* result the specification gives, and the observable projection of every  *)
(* node (not only the one operated on) must be the specified one.          *)
(* A step records the operation, its result, the projections that changed  *)
(* since the previous step (`diff`), the environment and the identities of *)
(* the nodes it created.                                                   *)
(***************************************************************************)
EXTENDS ModelStore, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, i, S, ids, v
vars == <<c, i, S, ids, v>>

Empty == [k \in {} |-> 0]
S0 == [N |-> <<>>, T |-> <<>>, M |-> <<>>, sc |-> <<>>, env |-> [ov |-> Empty, val |-> 0, be |-> 0]]
EnvObs(S1, U) == <<[k \in 1..Len(U.ops) |-> IF U.ops[k] \in DOMAIN S1.env.ov THEN S1.env.ov[U.ops[k]] ELSE -1],
                   <<S1.env.val, S1.env.be>>>>
\* JSON's empty object is an empty sequence
Fix(f) == IF f = <<>> THEN Empty ELSE f
FixOp(x) == IF x.op = "new" THEN [x EXCEPT !.d = Fix(@), !.p = Fix(@), !.a = Fix(@), !.r = Fix(@)]
            ELSE IF x.op = "ops" THEN [x EXCEPT !.ov = Fix(@)] ELSE x
Changed(S1, n, U) == IF n > Len(S.N) THEN TRUE ELSE Proj(S1, n, U) # Proj(S, n, U)
Known(x, n) == \E j \in 1..Len(x.diff) : x.diff[j].n = n
DiffOf(x, n) == x.diff[CHOOSE j \in 1..Len(x.diff) : x.diff[j].n = n].o
\* names the aspects in which observation o differs from what is specified
Aspect(o, e) == IF o.nm # e.nm THEN "name" ELSE IF o.ly # e.ly THEN "layers" ELSE IF o.d # e.d THEN "dimensions"
                ELSE IF o.p # e.p THEN "parameters" ELSE IF o.g # e.g THEN "gradients"
                ELSE IF o.r # e.r THEN "references" ELSE IF o.a # e.a THEN "attributes" ELSE "shims"

Judge(x, U) ==
  LET e == Do(S, x)
      bad == {n \in 1..Len(e.S.N) :
                IF Known(x, n) THEN DiffOf(x, n) # Proj(e.S, n, U) ELSE Changed(e.S, n, U)}
  IN
  IF x.exc # "" /\ e.res # Raised THEN [v |-> x.op \o " raised " \o x.exc, S |-> S]
  ELSE IF x.exc = "" /\ e.res = Raised THEN [v |-> x.op \o " did not raise", S |-> S]
  ELSE IF e.res # Raised /\ x.res # e.res THEN [v |-> "result of " \o x.op, S |-> S]
  ELSE IF x.op = "load" /\ e.res = Raised THEN [v |-> "end", S |-> S]
  ELSE IF x.total # Len(e.S.N) THEN [v |-> "number of nodes after " \o x.op, S |-> S]
  ELSE IF Len(x.ids) # Cardinality(Range(x.ids)) \/ Range(x.ids) \cap ids # {} THEN [v |-> "identity of a new node", S |-> S]
  ELSE IF x.dirty THEN [v |-> x.op \o " changed an array it was given", S |-> S]
  ELSE IF bad # {} THEN
     LET n == CHOOSE n \in bad : TRUE IN
     [v |-> x.op \o ": " \o (IF Known(x, n) THEN Aspect(DiffOf(x, n), Proj(e.S, n, U)) ELSE "a node kept its state"), S |-> S]
  ELSE IF x.env # EnvObs(e.S, U) THEN [v |-> x.op \o ": operators, validation or backend", S |-> S]
  ELSE [v |-> "ok", S |-> e.S]

Init == c \in 1..Len(Cases) /\ i = 0 /\ S = S0 /\ ids = {} /\ v = "ok"
Next == /\ v = "ok"
        /\ i < Len(Cases[c].steps)
        /\ LET x == FixOp(Cases[c].steps[i + 1])
               r == Eager(Judge(x, Cases[c].U))
           IN /\ S' = r.S
              /\ v' = r.v
              /\ ids' = ids \cup Range(x.ids)
              /\ IF r.v \notin {"ok", "end"}
                 THEN PrintT("@@BAD " \o ToJson([case |-> c, step |-> i + 1, clause |-> r.v])) ELSE TRUE
        /\ i' = i + 1
        /\ c' = c
Spec == Init /\ [][Next]_vars
View == <<c, i, v>>
Final == TLCGet("distinct") >= 0 /\ PrintT("@@DONE " \o ToString(Len(Cases)))
=============================================================================
