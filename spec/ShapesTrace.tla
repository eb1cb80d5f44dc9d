----------------------------- MODULE ShapesTrace -----------------------------
(* Recorded initializations, passes and resizings of composed models against Shapes. *)
EXTENDS Shapes, Json, IOUtils
VARIABLES c, i, st, v
Cases == JsonDeserialize(IOEnv.CASES)
Start(cs) == [D |-> [n \in 1..Len(cs.D) |-> [nO |-> cs.D[n][1], nI |-> cs.D[n][2]]], v |-> "built"]
Pairs(D) == [n \in DOMAIN D |-> <<D[n].nO, D[n].nI>>]
ByNode(e) == [n \in {q.n : q \in Nodes(e)} |-> CHOOSE q \in Nodes(e) : q.n = n]
Range(s) == {s[j] : j \in DOMAIN s}
Rows(a, n) == SubSeq(a, 1, n)
Exec(cs, s, x) ==
  LET ok(n) == [st |-> n, v |-> "ok"]
      bad(why) == [st |-> s, v |-> why \o " (" \o cs.how \o ")"]
  IN
  CASE x.op = "crash" -> bad("crashed " \o x.exc)
    [] x.op = "built" ->
         (LET D == Built(cs.e, s.D)
              wrong == {n \in {q.n : q \in Nodes(cs.e)} : <<D[n].nO, D[n].nI>> # x.D[n]}
          IN IF wrong # {} THEN bad("dimensions of a new " \o ByNode(cs.e)[CHOOSE n \in wrong : TRUE].k)
             ELSE ok([s EXCEPT !.D = D]))
    [] x.op = "init" ->
         (LET r == Infer(cs.e, s.D, x.x, x.y)
              used == {q.n : q \in Nodes(cs.e)}
              wrong == {n \in used : <<r.D[n].nO, r.D[n].nI>> # x.D[n]}
              leaf(p) == ByNode(cs.e)[p.n]
              shapes(p) == Range(ParamShapes(leaf(p), r.D[p.n])) # {<<q[1], q[2]>> : q \in Range(p.ps)}
              filled(p) == \E f \in Range(leaf(p).init) : ~\E q \in Range(p.ps) : q[1] = f[1] /\ q[3] = f[2]
          IN IF r.v # "ok" THEN ok([s EXCEPT !.v = r.v])      \* has to be refused now or at the first pass
             ELSE IF x.exc # "" THEN bad("initialization raised " \o x.exc)
             ELSE IF wrong # {} THEN bad("dimensions of " \o ByNode(cs.e)[CHOOSE n \in wrong : TRUE].k \o " after initialization")
             ELSE IF \E p \in Range(x.ps) : shapes(p) THEN bad("shape of the parameters of " \o leaf(CHOOSE p \in Range(x.ps) : shapes(p)).k)
             ELSE IF \E p \in Range(x.ps) : \E q \in Range(p.ps) : q[4] # "float32" THEN bad("type of the parameters")
             ELSE IF \E p \in Range(x.ps) : filled(p) THEN bad("initializer not used by " \o leaf(CHOOSE p \in Range(x.ps) : filled(p)).k)
             ELSE IF x.alias THEN bad("parameters share memory")
             ELSE ok([s EXCEPT !.D = r.D, !.v = "ok"]))
    [] x.op = "pass" ->
         (LET r == IF s.v = "ok" THEN Infer(cs.e, s.D, x.x, <<>>) ELSE [v |-> s.v, o |-> <<>>]
          IN IF r.v # "ok" THEN IF x.exc # "" THEN ok([s EXCEPT !.v = "refused"]) ELSE bad("accepted a " \o (IF r.v = "missing" THEN "missing dimension" ELSE "contradiction"))
             ELSE IF x.exc # "" THEN bad("pass raised " \o x.exc)
             ELSE IF x.out # r.o THEN bad("width of the result")
             ELSE IF x.dx # x.x THEN bad("width of the gradient")
             ELSE ok(s))
    [] x.op = "resize" ->
         IF x.exc # "" THEN bad("raised " \o x.exc)
         ELSE LET b == x.before
                  a == x.after
                  n == b.D[1]
                  params == b.W # <<>>
                  fills(rows, f) == \A j \in (n + 1)..x.new : \A k \in 1..Len(rows[j]) : rows[j][k] = f
              IN IF a.D # <<x.new, b.D[2]>> THEN bad("dimensions after resizing")
                 ELSE IF x.old # b /\ ~x.same THEN bad("resizing changed the layer that is replaced")
                 ELSE IF params /\ (Len(a.W) # x.new \/ Len(a.b) # x.new) THEN bad("shape after resizing")
                 ELSE IF params /\ (Rows(a.W, n) # b.W \/ Rows(a.b, n) # b.b) THEN bad("resizing lost parameters")
                 ELSE IF params /\ ~(fills(a.W, x.fillW) /\ fills(a.b, x.fillb)) THEN bad("new rows after resizing")
                 ELSE IF x.Y0 # <<>> /\ (\E j \in DOMAIN x.Y0 : Rows(x.Y1[j], n) # x.Y0[j]) THEN bad("resizing changed the outputs")
                 ELSE ok(s)
INSTANCE TraceMachine
=============================================================================
