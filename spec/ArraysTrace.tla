----------------------------- MODULE ArraysTrace -----------------------------
(* Recorded calls of the array operations against Arrays. *)
EXTENDS Arrays, Json, IOUtils
VARIABLES c, i, st, v
Cases == JsonDeserialize(IOEnv.CASES)
Start(cs) == 0
\* what the call has to return; Open marks results of which only the shape is fixed
Wanted(x) ==
  CASE x.op = "gemm" -> Gemm(x.x, x.y, x.t1, x.t2)
    [] x.op = "affine" -> Affine(x.x, x.w, x.b)
    [] x.op = "tile" -> Tile(x.x, x.n)
    [] x.op = "alloc" -> Alloc(x.s, x.t)
    [] x.op \in {"asarray", "as_contig", "to_numpy"} -> Convert(x.x, x.t)
    [] x.op = "reshape" -> Reshape(x.x, x.s)
    [] x.op = "copy" -> (IF x.x.s = x.y.s THEN Convert(x.x, x.y.t) ELSE Refused)
    [] x.op = "onehot" -> OneHot(x.x, IF x.n = -1 THEN Classes(x.x) ELSE x.n, x.sm)
    [] x.op = "insert" -> Insert(x.n, x.m, x.rows, x.t)
    [] x.op = "info" -> (IF x.x.s = x.y.s /\ x.x.t = x.y.t THEN Arr(<<>>, <<0>>, "") ELSE Refused)
Exec(cs, s, x) ==
  LET ok == [st |-> s, v |-> "ok"]
      bad(why) == [st |-> s, v |-> why \o " (" \o x.via \o " " \o x.op \o ")"]
      refusal == x.exc \in {"ValueError", "IndexError", "TypeError", "UFuncTypeError"}
  IN
  IF x.dirty # <<>> THEN bad("the call modified " \o x.dirty[1])
  ELSE IF x.op = "reject" THEN (IF refusal THEN ok ELSE bad("accepted " \o x.how))
  ELSE IF x.op = "width" THEN
    LET w == Width(x.tree) IN
    IF w = -1 THEN (IF refusal THEN ok ELSE bad("width of a container that has none"))
    ELSE IF x.exc # "" THEN bad("raised " \o x.exc) ELSE IF x.res # w THEN bad("width") ELSE ok
  ELSE IF x.op = "nest" THEN
    (IF x.exc # "" THEN bad("raised " \o x.exc)
     ELSE IF x.res # ConvertAll(x.tree, x.d) THEN bad("recursive conversion")
     ELSE IF x.leaves # Leaves(x.tree) THEN bad("recursive iteration") ELSE ok)
  ELSE LET want == Wanted(x) IN
    IF x.op = "gemm" /\ x.out THEN
      (IF IsRefused(want) \/ ~FitsOut(want, x.before) THEN
         (IF ~refusal THEN bad("accepted operands that do not fit")
          ELSE IF x.after # x.before THEN bad("a refused call modified the output array") ELSE ok)
       ELSE IF x.exc # "" THEN
         (IF x.tight THEN bad("raised " \o x.exc)
          ELSE IF ~refusal \/ x.after # x.before THEN bad("a refused call modified the output array") ELSE ok)
       ELSE IF x.res # want THEN bad("result")
       ELSE IF x.after # want THEN bad("the output array does not hold the result")
       ELSE ok)
    ELSE IF IsRefused(want) THEN (IF refusal THEN ok ELSE bad("accepted arguments that do not fit"))
    ELSE IF x.exc # "" THEN bad("raised " \o x.exc)
    ELSE IF x.op = "alloc" /\ ~x.zeros THEN (IF x.res.s = want.s /\ x.res.t = want.t THEN ok ELSE bad("shape or data type"))
    ELSE IF x.res.s # want.s THEN bad("shape")
    ELSE IF x.res.t # want.t THEN bad("data type")
    ELSE IF x.res # want THEN bad("result")
    ELSE IF ~x.flag THEN bad("memory layout")
    ELSE ok
INSTANCE TraceMachine
=============================================================================
