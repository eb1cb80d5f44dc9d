--------------------------- MODULE ContainersTrace ---------------------------
(***************************************************************************)
(* A world of containers: every step builds a new one from an existing one *)
(* (by a conversion, a conversion layer with its backward pass, or an      *)
(* index) and must leave all existing ones as they are.                    *)
(***************************************************************************)
EXTENDS Containers, Json, IOUtils
VARIABLES c, i, st, v
Cases == JsonDeserialize(IOEnv.CASES)

Convs == {"flatten", "unflatten", "pad", "unpad", "list2padded", "padded2list", "ragged", "dataxd", "copy"}
Inverse == [list2ragged |-> "ragged2list", ragged2list |-> "list2ragged", list2padded |-> "padded2list",
            padded2list |-> "list2padded"]
\* the gradient a conversion layer returns for the gradient dy of its output
BackOf(k, x) == CASE x.op = "list2array" -> ListC(x.dy, Unflatten(x.dy.r, Lens(k.s), 0))
                  [] OTHER -> Conv(x.dy, [op |-> Inverse[x.op]])
\* padded results are determined up to the order of sequences of equal length
Agrees(out, exp) ==
  IF exp.t = "p" /\ out.t = "p"
  THEN /\ PaddedOK(out) /\ IsPerm(out.x) /\ Len(out.r) = Len(exp.r)
       /\ out.ln = exp.ln /\ out.md = exp.md
       /\ Seqs(out) = Seqs(exp)
       /\ NoRows(exp) \/ (out.sh = exp.sh /\ out.dt = exp.dt)
  ELSE SameC(out, exp)

Exec(cs, K, x) ==
  LET k == K[x.a]
      ok(out) == [st |-> Append(K, out), v |-> "ok"]
      bad(why) == [st |-> K, v |-> why]
  IN
  IF x.op = "start" THEN ok(x.out)
  ELSE IF x.dirty # <<>> THEN bad(x.op \o " modified " \o x.dirty[1])
  ELSE IF x.op \in {"index", "iter"} /\ x.op = "index" /\ x.bad = 1 THEN
    (IF Positions(k.ln, x.ix) # <<0>> THEN bad("case is not out of range")
     ELSE IF x.exc # "IndexError" THEN bad("an out-of-range index did not raise") ELSE [st |-> K, v |-> "ok"])
  ELSE IF x.op = "reject" THEN
    (IF x.exc = x.want THEN [st |-> K, v |-> "ok"] ELSE bad("invalid input was accepted by " \o x.what))
  ELSE IF x.exc # "" THEN bad(x.op \o " raised " \o x.exc)
  ELSE CASE x.op = "index" -> IF SameC(x.out, At(k, Positions(k.ln, x.ix))) THEN ok(x.out) ELSE bad("indexing a " \o k.t)
         [] x.op = "iter" -> IF Len(x.outs) = k.ln /\ \A j \in 1..k.ln : SameC(x.outs[j], At(k, <<j>>))
                             THEN ok(k) ELSE bad("iterating a " \o k.t)
         [] x.op = "args" -> IF x.items = ItemsOf(x.given) /\ x.keys = [j \in 1..Len(x.given) |-> ItemsOf(x.given)[j].k]
                                /\ x.vals = [j \in 1..Len(x.given) |-> ItemsOf(x.given)[j].v]
                             THEN [st |-> K, v |-> "ok"] ELSE bad("items of an argument container")
         [] x.op = "copy" -> IF SameC(x.out, k) THEN ok(x.out) ELSE bad("copying a " \o k.t)
         [] x.layer -> IF ~Agrees(x.out, Conv(k, x)) THEN bad("forward pass of layer " \o x.op)
                       ELSE IF ~Agrees(x.dx, BackOf(k, x)) THEN bad("backward pass of layer " \o x.op)
                       ELSE ok(x.out)
         [] OTHER -> IF Agrees(x.out, Conv(k, x)) THEN ok(x.out) ELSE bad("result of " \o x.op)
Start(cs) == <<>>
INSTANCE TraceMachine
=============================================================================
