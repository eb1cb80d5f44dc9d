----------------------------- MODULE ModelStore ------------------------------
(***************************************************************************)
(* The object graph of models and everything that is stored on it.         *)
(*                                                                         *)
(* State S:                                                                *)
(*   N    sequence of nodes (a node's index is its identity)               *)
(*          nm  name                                                       *)
(*          ly  children: sequence of node indices (repeats allowed)       *)
(*          d   dimensions:  name -> <<>> (unset) or <<value>>             *)
(*          p   parameters:  name -> <<>> (unset) or <<array>>             *)
(*          g   gradients:   name -> array                                 *)
(*          a   attributes:  name -> sequence of integers                  *)
(*          r   references:  name -> 0 (unset) or node index               *)
(*          sh  shims: sequence of shim indices                            *)
(*   T    sequence of shims (wrapped PyTorch modules with one parameter):    *)
(*          w  the parameter,  g  <<>> or <<gradient>>                     *)
(*   M    saved messages                                                   *)
(*   sc   open scopes, innermost last                                      *)
(*   env  [ov |-> operator overloads, val |-> validation, be |-> backend]  *)
(*                                                                         *)
(* Do(S, x) is the effect of the operation x: the next state and the       *)
(* result <<...>> (a sequence of integers, Raised when it must raise).     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Eager(v) == IF v = v THEN v ELSE Assert(FALSE, "not a value")
Raised == <<-99>>
Range(f) == {f[x] : x \in DOMAIN f}
Put(f, k, v) == (k :> v) @@ f
RowAdd(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
Zeros(n) == [i \in 1..n |-> 0]
RECURSIVE SetToSeq(_)
SetToSeq(Q) == IF Q = {} THEN <<>> ELSE LET x == CHOOSE x \in Q : \A y \in Q : x <= y IN <<x>> \o SetToSeq(Q \ {x})
RECURSIVE Dedup(_, _)
Dedup(s, seen) == IF s = <<>> THEN <<>>
                  ELSE IF Head(s) \in seen THEN Dedup(Tail(s), seen)
                  ELSE <<Head(s)>> \o Dedup(Tail(s), seen \cup {Head(s)})
Pos(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..(i - 1) : s[j] # x

\* ------------------------------------------------------------------ walking
RECURSIVE BfsFrom(_, _, _)
\* queue of nodes still to visit, nodes visited so far (in order)
BfsFrom(N, q, out) ==
  IF q = <<>> THEN out
  ELSE LET n == Head(q) IN
       IF \E i \in 1..Len(out) : out[i] = n THEN BfsFrom(N, Tail(q), out)
       ELSE BfsFrom(N, Tail(q) \o N[n].ly, Append(out, n))
Bfs(N, n) == Eager(BfsFrom(N, <<n>>, <<>>))

\* depth first: fold over the children, threading the set of nodes seen
RECURSIVE PreAll(_, _, _)
PreAll(N, todo, out) ==
  IF todo = <<>> THEN out
  ELSE LET n == Head(todo) IN
       IF \E i \in 1..Len(out) : out[i] = n THEN PreAll(N, Tail(todo), out)
       ELSE PreAll(N, N[n].ly \o Tail(todo), Append(out, n))
Pre(N, n) == Eager(PreAll(N, <<n>>, <<>>))

RECURSIVE PostNode(_, _, _), PostAll(_, _, _)
PostNode(N, n, acc) ==
  IF n \in acc.seen THEN acc
  ELSE LET sub == PostAll(N, N[n].ly, [acc EXCEPT !.seen = @ \cup {n}])
       IN [sub EXCEPT !.out = Append(@, n)]
PostAll(N, todo, acc) ==
  IF todo = <<>> THEN acc ELSE PostAll(N, Tail(todo), PostNode(N, Head(todo), acc))
Post(N, n) == Eager(PostNode(N, n, [seen |-> {}, out |-> <<>>]).out)

Walk(N, n, order) == CASE order = "bfs" -> Bfs(N, n) [] order = "dfs_pre" -> Pre(N, n) [] OTHER -> Post(N, n)
Reach(N, n) == Range(Bfs(N, n))

\* every reference points into its node's subtree
Rooted(N, n) == \A m \in Reach(N, n) : \A k \in DOMAIN N[m].r : N[m].r[k] # 0 => N[m].r[k] \in Reach(N, m)

\* ----------------------------------------------------------------- queries
Has(f, k) == IF k \notin DOMAIN f THEN 0 ELSE IF f[k] = <<>> THEN 1 ELSE 2
\* what has/get/maybe_get observe: <<has, get, maybe>>; -1 raised, 0 nothing, 1 the value follows
Query(f, k) == CASE Has(f, k) = 2 -> <<<<2>>, <<1>> \o f[k][1], <<1>> \o f[k][1]>>
                 [] OTHER -> <<<<Has(f, k)>>, <<-1>>, <<0>>>>
QueryG(f, k) == IF k \in DOMAIN f THEN <<<<2>>, <<1>> \o f[k], <<1>> \o f[k]>> ELSE <<<<0>>, <<-1>>, <<0>>>>
QueryR(f, k) == IF k \notin DOMAIN f THEN <<<<0>>, <<-1>>, <<0>>>>
                ELSE IF f[k] = 0 THEN <<<<1>>, <<-1>>, <<0>>>>
                ELSE <<<<2>>, <<1, f[k]>>, <<1, f[k]>>>>
\* the observable projection of a node, for the names in U
Proj(S, n, U) == LET o == S.N[n] IN
  [nm |-> o.nm, ly |-> o.ly,
   d |-> [i \in 1..Len(U.d) |-> Query([k \in DOMAIN o.d |-> IF o.d[k] = <<>> THEN <<>> ELSE <<o.d[k]>>], U.d[i])],
   p |-> [i \in 1..Len(U.p) |-> Query(o.p, U.p[i])],
   g |-> [i \in 1..Len(U.p) |-> QueryG(o.g, U.p[i])],
   r |-> [i \in 1..Len(U.r) |-> QueryR(o.r, U.r[i])],
   a |-> [i \in 1..Len(U.a) |-> IF U.a[i] \in DOMAIN o.a THEN <<1>> \o o.a[U.a[i]] ELSE <<0>>],
   sh |-> [i \in 1..Len(o.sh) |-> S.T[o.sh[i]]]]

\* --------------------------------------------------------------- operations
R(S, res) == [S |-> S, res |-> res]
Fail(S) == R(S, Raised)
Done(S) == R(S, <<>>)

SetDim(N, n, k, v, force) ==   \* <<>> when refused
  LET o == N[n] IN
  IF k \notin DOMAIN o.d THEN <<>>
  ELSE IF /\ o.d[k] # <<>> /\ o.d[k] # <<v>>
          /\ ~force \/ \E q \in DOMAIN o.p : o.p[q] # <<>>
       THEN <<>>
       ELSE <<[N EXCEPT ![n].d[k] = <<v>>]>>

\* removing x below root: from every list, then references that left their node's subtree
RemoveNode(N, root, x) ==
  LET tree == Reach(N, root)
      N1 == Eager([m \in 1..Len(N) |-> IF m \in tree THEN [N[m] EXCEPT !.ly = SelectSeq(@, LAMBDA y : y # x)] ELSE N[m]])
      tree1 == Reach(N1, root)
  IN Eager([m \in 1..Len(N) |->
        IF m \in tree1
        THEN LET sub == Reach(N1, m) IN
             [N1[m] EXCEPT !.r = [k \in DOMAIN @ |-> IF @[k] # 0 /\ @[k] \notin sub THEN 0 ELSE @[k]]]
        ELSE N1[m]])

ReplaceNode(N, root, old, new) ==
  LET tree == Reach(N, root) IN
  Eager([m \in 1..Len(N) |->
     IF m \in tree /\ m # old
     THEN [N[m] EXCEPT !.ly = [i \in 1..Len(@) |-> IF @[i] = old THEN new ELSE @[i]],
                       !.r = [k \in DOMAIN @ |-> IF @[k] = old THEN new ELSE @[k]]]
     ELSE N[m]])

\* copies get the next free indices in breadth-first order
ShimsOf(N, order) == Dedup(LET RECURSIVE F(_)
                               F(s) == IF s = <<>> THEN <<>> ELSE N[Head(s)].sh \o F(Tail(s))
                           IN F(order), {})
CopyOf(S, n) ==
  LET order == Bfs(S.N, n)
      base == Len(S.N)
      new(m) == base + Pos(order, m)
      sord == ShimsOf(S.N, order)
      newt(t) == Len(S.T) + Pos(sord, t)
      copies == [i \in 1..Len(order) |->
        LET o == S.N[order[i]] IN
        [o EXCEPT !.ly = [j \in 1..Len(@) |-> new(@[j])],
                  !.r = [k \in DOMAIN @ |-> IF @[k] = 0 THEN 0 ELSE new(@[k])],
                  !.g = [k \in DOMAIN @ \cap DOMAIN o.p |-> @[k]],
                  !.sh = [j \in 1..Len(@) |-> newt(@[j])]]]
  IN Eager([S EXCEPT !.N = @ \o copies, !.T = @ \o [i \in 1..Len(sord) |-> [S.T[sord[i]] EXCEPT !.g = <<>>]]])

\* wrapping every node below n: the i-th node in breadth-first order gets the wrapper i
WrapAll(S, n) ==
  LET order == Bfs(S.N, n)
      w(m) == IF m \in Range(order) /\ m # n THEN Len(S.N) + Pos(order, m) ELSE m
      wrapper(m) == [nm |-> "wrap", ly |-> <<m>>, d |-> [k \in {} |-> 0], p |-> [k \in {} |-> 0],
                     g |-> [k \in {} |-> 0], a |-> [k \in {} |-> 0], r |-> [k \in {} |-> 0], sh |-> <<>>]
  IN Eager([S EXCEPT !.N =
       [m \in 1..Len(S.N) |->
          IF m \in Range(order)
          THEN [S.N[m] EXCEPT !.ly = [j \in 1..Len(@) |-> w(@[j])],
                              !.r = [k \in DOMAIN @ |-> IF @[k] = m THEN m ELSE w(@[k])]]
          ELSE S.N[m]] \o [i \in 1..Len(order) |-> wrapper(order[i])]])

\* ------------------------------------------------------------ serialization
Message(S, n) ==
  LET order == Bfs(S.N, n) IN
  Eager([i \in 1..Len(order) |->
     LET o == S.N[order[i]] IN
     [nm |-> o.nm, d |-> o.d, p |-> o.p, a |-> o.a,
      r |-> [k \in DOMAIN o.r |-> IF o.r[k] = 0 THEN 0 ELSE Pos(order, o.r[k])],
      sh |-> [j \in 1..Len(o.sh) |-> S.T[o.sh[j]].w]]])
CanSave(S, n) == LET t == Reach(S.N, n) IN
   \A m \in t : \A k \in DOMAIN S.N[m].r : S.N[m].r[k] # 0 => S.N[m].r[k] \in t

\* loading msg into the nodes below n; a refused load is not specified any further
CanLoad(S, n, msg) ==
  LET order == Bfs(S.N, n) IN
  /\ Len(order) = Len(msg)
  /\ \A i \in 1..Len(msg) : LET o == S.N[order[i]] IN
       /\ \A k \in DOMAIN msg[i].d : msg[i].d[k] # <<>> => Has(o.d, k) # 0 /\ (o.d[k] = <<>> \/ o.d[k] = msg[i].d[k])
       /\ \A k \in DOMAIN msg[i].r : msg[i].r[k] # 0 => order[msg[i].r[k]] \in Reach(S.N, order[i])
       /\ Len(msg[i].sh) <= Len(o.sh)
\* shims are loaded in the order of the nodes, so the last occurrence of a shared one wins
RECURSIVE LoadShims(_, _, _, _)
LoadShims(S, order, msg, i) ==
  IF i = 0 THEN S.T
  ELSE LET T == LoadShims(S, order, msg, i - 1)
           sh == S.N[order[i]].sh
       IN [t \in 1..Len(T) |->
             IF \E j \in 1..Len(msg[i].sh) : sh[j] = t
             THEN [T[t] EXCEPT !.w = msg[i].sh[CHOOSE j \in 1..Len(msg[i].sh) : sh[j] = t /\ \A q \in (j + 1)..Len(msg[i].sh) : sh[q] # t]]
             ELSE T[t]]
Loaded(S, n, msg) ==
  LET order == Bfs(S.N, n) IN
  Eager([S EXCEPT
    !.N = [m \in 1..Len(S.N) |->
       IF m \notin Range(order) THEN S.N[m]
       ELSE LET q == msg[Pos(order, m)]
                o == S.N[m]
            IN [o EXCEPT
                  !.nm = q.nm,
                  !.d = [k \in DOMAIN o.d |-> IF k \in DOMAIN q.d /\ q.d[k] # <<>> THEN q.d[k] ELSE o.d[k]],
                  !.p = q.p @@ o.p,
                  !.a = q.a @@ o.a,
                  !.r = [k \in DOMAIN q.r |-> IF q.r[k] = 0 THEN 0 ELSE order[q.r[k]]] @@ o.r]],
    !.T = LoadShims(S, order, msg, Len(order))])
\* the compatibility test
Compatible(S, n, msg, strict) ==
  LET order == Bfs(S.N, n) IN
  /\ Len(order) = Len(msg)
  /\ \A i \in 1..Len(msg) : LET o == S.N[order[i]] IN
       /\ strict => msg[i].nm = o.nm
       /\ Len(msg[i].sh) = Len(o.sh)
       /\ \A k \in DOMAIN msg[i].d : Has(o.d, k) # 0 /\ (o.d[k] = <<>> \/ o.d[k] = msg[i].d[k])
       /\ \A k \in DOMAIN msg[i].r : msg[i].r[k] # 0 => order[msg[i].r[k]] \in Reach(S.N, order[i])
       /\ \A k \in DOMAIN msg[i].p :
            /\ Has(o.p, k) # 0
            /\ o.p[k] # <<>> /\ msg[i].p[k] # <<>> => Len(o.p[k][1]) = Len(msg[i].p[k][1])
       /\ strict => \A k \in DOMAIN msg[i].a \cap DOMAIN o.a : msg[i].a[k] = o.a[k]

\* ------------------------------------------------------------------- update
CanUpdate(S, n) == \A m \in Reach(S.N, n) : \A k \in DOMAIN S.N[m].p \cap DOMAIN S.N[m].g :
                      S.N[m].p[k] # <<>> /\ Len(S.N[m].p[k][1]) = Len(S.N[m].g[k])
Updated(S, n, lr) ==
  LET tree == Reach(S.N, n)
      shims == UNION {Range(S.N[m].sh) : m \in tree}
  IN
  [S EXCEPT
    !.T = [t \in 1..Len(S.T) |->
       IF t \in shims /\ S.T[t].g # <<>>
       THEN [w |-> RowAdd(S.T[t].w, [j \in 1..Len(S.T[t].w) |-> -lr * S.T[t].g[1][j]]), g |-> <<Zeros(Len(S.T[t].w))>>]
       ELSE S.T[t]],
    !.N = [m \in 1..Len(S.N) |->
     IF m \notin tree THEN S.N[m]
     ELSE LET o == S.N[m]
              ks == DOMAIN o.p \cap DOMAIN o.g
          IN [o EXCEPT !.p = [k \in DOMAIN o.p |-> IF k \in ks THEN <<RowAdd(o.p[k][1], [j \in 1..Len(o.g[k]) |-> -lr * o.g[k][j]])>> ELSE o.p[k]],
                       !.g = [k \in DOMAIN o.g |-> IF k \in ks THEN Zeros(Len(o.g[k])) ELSE o.g[k]]]]]

\* ------------------------------------------------------------------- scopes
\* temporary parameters: each entry [n, k, v, t] substitutes parameter k of node n, or
\* (n = 0) the parameter of shim t, wherever it occurs below root
Entries(S, root, ps) == LET tree == Reach(S.N, root) IN
  {i \in 1..Len(ps) : IF ps[i].n # 0 THEN ps[i].n \in tree /\ Has(S.N[ps[i].n].p, ps[i].k) = 2
                      ELSE \E m \in tree : \E j \in 1..Len(S.N[m].sh) : S.N[m].sh[j] = ps[i].t}
SetN(N, ps, vals, is) ==
  [m \in 1..Len(N) |->
     [N[m] EXCEPT !.p =
        [k \in DOMAIN @ \cup {ps[i].k : i \in {i \in is : ps[i].n = m}} |->
           IF \E i \in is : ps[i].n = m /\ ps[i].k = k
           THEN vals[CHOOSE i \in is : ps[i].n = m /\ ps[i].k = k] ELSE @[k]]]]
SetT(T, ps, vals, is) ==
  [t \in 1..Len(T) |-> IF \E i \in is : ps[i].n = 0 /\ ps[i].t = t
     THEN [T[t] EXCEPT !.w = vals[CHOOSE i \in is : ps[i].n = 0 /\ ps[i].t = t][1]] ELSE T[t]]
EnterParams(S, root, ps) ==
  LET is == Entries(S, root, ps)
      new == [i \in 1..Len(ps) |-> <<ps[i].v>>]
      old == [i \in 1..Len(ps) |-> IF i \notin is THEN <<>> ELSE IF ps[i].n # 0 THEN S.N[ps[i].n].p[ps[i].k] ELSE <<S.T[ps[i].t].w>>]
  IN Eager([S EXCEPT !.N = SetN(S.N, ps, new, is), !.T = SetT(S.T, ps, new, is),
                     !.sc = Append(@, [t |-> "params", is |-> is, ps |-> ps, old |-> old])])
Leave(S) ==
  LET s == S.sc[Len(S.sc)]
      rest == SubSeq(S.sc, 1, Len(S.sc) - 1)
  IN Eager(IF s.t = "params" THEN [S EXCEPT !.sc = rest, !.N = SetN(S.N, s.ps, s.old, s.is), !.T = SetT(S.T, s.ps, s.old, s.is)]
     ELSE [S EXCEPT !.sc = rest, !.env = s.env])

\* --------------------------------------------------------------- the machine
Fresh(x) == [nm |-> x.nm, ly |-> x.ly, d |-> x.d, p |-> x.p, g |-> [k \in {} |-> <<>>], a |-> x.a, r |-> x.r, sh |-> x.sh]

Do(S, x) ==
  CASE x.op = "new" -> Done([S EXCEPT !.N = Append(@, Fresh(x))])
    [] x.op = "newshim" -> Done([S EXCEPT !.T = Append(@, [w |-> x.v, g |-> <<>>])])
    [] x.op = "layer" -> Done([S EXCEPT !.N[x.n].ly = Append(@, x.m)])
    [] x.op = "dim" -> LET r == SetDim(S.N, x.n, x.k, x.v, x.force) IN
                       IF r = <<>> THEN Fail(S) ELSE Done([S EXCEPT !.N = r[1]])
    [] x.op = "param" -> Done([S EXCEPT !.N[x.n].p = Put(@, x.k, x.v)])
    [] x.op = "grad" -> Done([S EXCEPT !.N[x.n].g = Put(@, x.k, x.v)])
    [] x.op = "inc" -> Done([S EXCEPT !.N[x.n].g = Put(@, x.k, IF x.k \in DOMAIN @ THEN RowAdd(@[x.k], x.v) ELSE x.v)])
    [] x.op = "attr" -> Done([S EXCEPT !.N[x.n].a = Put(@, x.k, x.v)])
    [] x.op = "attrapp" -> Done([S EXCEPT !.N[x.n].a[x.k] = Append(@, x.v)])
    [] x.op = "ref" -> IF x.m # 0 /\ x.m \notin Reach(S.N, x.n) THEN Fail(S)
                       ELSE Done([S EXCEPT !.N[x.n].r = Put(@, x.k, x.m)])
    [] x.op = "shimgrad" -> Done([S EXCEPT !.T[x.m].g = IF @ = <<>> THEN <<x.v>> ELSE <<RowAdd(@[1], x.v)>>])
    [] x.op = "walk" -> R(S, Walk(S.N, x.n, x.order))
    [] x.op = "remove" -> Done([S EXCEPT !.N = RemoveNode(S.N, x.n, x.m)])
    [] x.op = "replace" -> R([S EXCEPT !.N = ReplaceNode(S.N, x.n, x.m, x.q)], <<IF x.m \in Reach(S.N, x.n) THEN 1 ELSE 0>>)
    [] x.op = "copy" -> LET S1 == CopyOf(S, x.n) IN R(S1, [i \in 1..(Len(S1.N) - Len(S.N)) |-> Len(S.N) + i])
    [] x.op = "clone" ->   \* x.c - 1 further copies
         LET RECURSIVE F(_, _)
             F(S1, k) == IF k = 0 THEN S1 ELSE F(CopyOf(S1, x.n), k - 1)
             S2 == F(S, x.c - 1)
         IN R(S2, <<x.n>> \o [i \in 1..(Len(S2.N) - Len(S.N)) |-> Len(S.N) + i])
    [] x.op = "wrap" -> R(WrapAll(S, x.n), [i \in 1..Len(Bfs(S.N, x.n)) |-> Len(S.N) + i])
    [] x.op = "save" -> IF ~CanSave(S, x.n) THEN Fail(S) ELSE Done([S EXCEPT !.M = Append(@, Message(S, x.n))])
    [] x.op = "load" -> IF ~CanLoad(S, x.n, S.M[x.m]) THEN Fail(S) ELSE Done(Loaded(S, x.n, S.M[x.m]))
    [] x.op = "can" -> R(S, <<IF Compatible(S, x.n, S.M[x.m], x.strict) THEN 1 ELSE 0>>)
    [] x.op = "update" -> Done(Updated(S, x.n, x.lr))
    [] x.op = "grads" -> \* get_gradients: the (node, name) pairs, as node * 10 + position of the name
         R(S, SetToSeq(UNION {{10 * m + i : i \in {i \in 1..Len(x.names) : x.names[i] \in DOMAIN S.N[m].g /\ x.names[i] \in DOMAIN S.N[m].p}}
                                : m \in Reach(S.N, x.n)}))
    [] x.op = "rate" -> \* set an attribute on exactly the nodes that have it
         Done([S EXCEPT !.N = [m \in 1..Len(S.N) |->
           IF m \notin Reach(S.N, x.n) THEN S.N[m]
           ELSE [S.N[m] EXCEPT !.a = [k \in DOMAIN @ |-> IF \E i \in 1..Len(x.ks) : x.ks[i] = k THEN x.v ELSE @[k]]]]])
    [] x.op = "chattr" -> \* change_attr_values: only nodes of that name that have the attribute
         Done([S EXCEPT !.N = [m \in 1..Len(S.N) |->
           IF m \in Reach(S.N, x.n) /\ S.N[m].nm = x.nm /\ x.k \in DOMAIN S.N[m].a
           THEN [S.N[m] EXCEPT !.a[x.k] = x.v] ELSE S.N[m]]])
    [] x.op = "params" -> Done(EnterParams(S, x.n, x.ps))
    [] x.op = "ops" -> Done([S EXCEPT !.sc = Append(@, [t |-> "env", env |-> S.env]), !.env.ov = x.ov])
    [] x.op = "val" -> Done([S EXCEPT !.sc = Append(@, [t |-> "env", env |-> S.env]), !.env.val = x.v])
    [] x.op = "be" -> Done([S EXCEPT !.sc = Append(@, [t |-> "env", env |-> S.env]), !.env.be = x.v])
    [] x.op = "leave" -> Done(Leave(S))
=============================================================================
