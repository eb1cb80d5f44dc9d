----------------------------- MODULE ModelStoreMC ----------------------------
(***************************************************************************)
(* Design run of ModelStore: every history up to MaxLen operations from an *)
(* alphabet over a few initial graphs (a shared grandchild with references *)
(* into it, a diamond, shims).  The properties C03-C07 are stated here as  *)
(* invariants and action properties of the specified operations; every     *)
(* history is printed and replayed on the real code.                       *)
(***************************************************************************)
EXTENDS ModelStore, Json

CONSTANTS MaxLen, Focus, Emit

VARIABLES S, hist, ghost, start
vars == <<S, hist, ghost, start>>

E0 == [k \in {} |-> 0]
Nd(nm, ly, d, p, a, r, sh) == [op |-> "new", nm |-> nm, ly |-> ly, d |-> d, p |-> p, a |-> a, r |-> r, sh |-> sh]
DimsU == [nO |-> <<2>>, nI |-> <<>>]
Graphs == <<
  \* 1: a chain of three with references into the grandchild, and an outsider
  <<[op |-> "newshim", v |-> <<1, 2>>],
    Nd("x", <<>>, DimsU, [W |-> <<<<1, 2>>>>, b |-> <<>>], [at |-> <<1>>], E0, <<1>>),
    Nd("y", <<1, 1>>, DimsU, E0, [dropout_rate |-> <<1>>], [r |-> 1], <<>>),
    Nd("z", <<2, 1>>, E0, [b |-> <<<<0, 3>>>>], E0, [r |-> 1, q |-> 2], <<>>),
    Nd("x", <<>>, [nO |-> <<>>, nI |-> <<>>], [W |-> <<>>, b |-> <<>>], [at |-> <<2>>], E0, <<>>)>>,
  \* 2: a diamond
  <<Nd("x", <<>>, DimsU, [W |-> <<<<1, 1>>>>], E0, E0, <<>>),
    Nd("y", <<1>>, E0, E0, [dropout_rate |-> <<0>>], [r |-> 0], <<>>),
    Nd("y", <<1>>, E0, [W |-> <<<<2, 0>>>>], [dropout_rate |-> <<0>>], [r |-> 1], <<>>),
    Nd("z", <<2, 3, 1>>, DimsU, E0, E0, [q |-> 3], <<>>)>>>>
RECURSIVE Build(_, _, _)
Build(S1, ops, i) == IF i > Len(ops) THEN S1 ELSE Build(Do(S1, ops[i]).S, ops, i + 1)
S0 == [N |-> <<>>, T |-> <<>>, M |-> <<>>, sc |-> <<>>, env |-> [ov |-> E0, val |-> 0, be |-> 0]]

Nodes == 1..Len(S.N)
Root == IF start = 1 THEN 3 ELSE 4
Few == IF Len(S.N) > 8 THEN 1..4 ELSE {n \in Nodes : n <= 4} \cup {Len(S.N)}
Vs == <<5, -1>>
StoreOps ==
     {[op |-> "dim", n |-> n, k |-> k, v |-> v, force |-> f] : n \in {1, 4}, k \in {"nO", "nI"}, v \in {2, 3}, f \in BOOLEAN}
  \cup {[op |-> "param", n |-> n, k |-> "W", v |-> v] : n \in {1, 4}, v \in {<<>>, <<Vs>>}}
  \cup {[op |-> "inc", n |-> n, k |-> "W", v |-> Vs] : n \in {1, 4}}
  \cup {[op |-> "grad", n |-> 1, k |-> "W", v |-> <<1, 0>>]}
  \cup {[op |-> "ref", n |-> n, k |-> "r", m |-> m] : n \in {2, 3}, m \in {0, 1, 4}}
  \cup {[op |-> "update", n |-> Root, lr |-> 1] : j \in {j \in {1} : CanUpdate(S, Root)}}
  \cup {[op |-> "copy", n |-> 2]}
GraphOps ==
     {[op |-> "remove", n |-> Root, m |-> m] : m \in {1, 2, 3}}
  \cup {[op |-> "remove", n |-> 2, m |-> 1]}
  \cup {[op |-> "replace", n |-> n, m |-> m, q |-> q] : n \in {2, Root}, m \in {1, 2}, q \in {q \in {4} : start = 1}}
  \cup {[op |-> "walk", n |-> n, order |-> o] : n \in {Root, Len(S.N)}, o \in {"bfs", "dfs_pre", "dfs_post"}}
  \cup {[op |-> "ref", n |-> n, k |-> k, m |-> m] : n \in {2, Root}, k \in {"r", "q"}, m \in {0, 1, 2}}
  \cup {[op |-> "layer", n |-> 2, m |-> 4] : j \in {j \in {1} : start = 1}}
  \cup {[op |-> "wrap", n |-> n] : n \in {n \in {2, Root} : Len(S.N) < 9}}
  \cup {[op |-> "rate", n |-> Root, v |-> <<4>>, ks |-> <<"dropout_rate">>]}
CopyOps ==
     {[op |-> "copy", n |-> n] : n \in {n \in {1, 2, Root, Len(S.N)} : Len(S.N) + Len(Bfs(S.N, n)) <= 14}}
  \cup {[op |-> "clone", n |-> 2, c |-> 3] : j \in {j \in {1} : Len(S.N) < 9}}
  \cup {[op |-> "inc", n |-> n, k |-> "W", v |-> Vs] : n \in {1, Len(S.N)}}
  \cup {[op |-> "param", n |-> n, k |-> "W", v |-> <<Vs>>] : n \in {1, Len(S.N)}}
  \cup {[op |-> "update", n |-> n, lr |-> 1] : n \in {n \in {Root, Len(S.N)} : CanUpdate(S, n)}}
  \cup {[op |-> "attrapp", n |-> n, k |-> "at", v |-> 3] : n \in {n \in {1, Len(S.N)} : "at" \in DOMAIN S.N[n].a}}
  \cup {[op |-> "ref", n |-> n, k |-> "r", m |-> 0] : n \in {2}}
  \cup {[op |-> "remove", n |-> n, m |-> 1] : n \in {2, Root}}
  \cup {[op |-> "shimgrad", m |-> t, v |-> <<1, 1>>] : t \in 1..Len(S.T)}
SerialOps ==
     {[op |-> "save", n |-> n, medium |-> md] : n \in {2, 4, Root}, md \in {md \in {"bytes", "dict", "disk"} : Len(S.M) < 2}}
  \cup {[op |-> "can", n |-> n, m |-> m, strict |-> st] : n \in {1, 2, 4, Root}, m \in 1..Len(S.M), st \in BOOLEAN}
  \cup {[op |-> "load", n |-> n, m |-> m] : n \in {1, 2, 4, Root}, m \in 1..Len(S.M)}
  \cup {[op |-> "dim", n |-> 1, k |-> "nI", v |-> 3, force |-> FALSE]}
  \cup {[op |-> "param", n |-> 1, k |-> "W", v |-> v] : v \in {<<>>, <<Vs>>, <<<<7>>>>}}
  \cup {[op |-> "attr", n |-> 1, k |-> "at", v |-> <<9>>]}
  \cup {[op |-> "ref", n |-> Root, k |-> "r", m |-> 0]}
ScopeOps ==
     {[op |-> "params", n |-> n, ps |-> ps] : n \in {2, Root},
        ps \in {<<[n |-> 1, k |-> "W", t |-> 0, v |-> Vs]>>,
                <<[n |-> 1, k |-> "W", t |-> 0, v |-> <<8, 8>>], [n |-> 0, k |-> "", t |-> 1, v |-> <<4, 4>>]>>}}
  \cup {[op |-> "ops", ov |-> ov] : ov \in {("+" :> 1), (">>" :> 2 @@ "+" :> 3)}}
  \cup {[op |-> "val", v |-> v] : v \in {0, 1}}
  \cup {[op |-> "be", v |-> v] : v \in {1, 2}}
  \cup {[op |-> "param", n |-> 1, k |-> "W", v |-> <<<<6, 6>>>>]}
  \cup {[op |-> "leave", how |-> h] : h \in {h \in {"normal", "error", "interrupt"} : S.sc # <<>>}}
ShimOK(x) == x.op = "params" => \A i \in 1..Len(x.ps) : x.ps[i].t <= Len(S.T)
Alphabet == {x \in (CASE Focus = "store" -> StoreOps [] Focus = "graph" -> GraphOps
                      [] Focus = "copy" -> CopyOps [] Focus = "serial" -> SerialOps [] OTHER -> ScopeOps) : ShimOK(x)}
\* operations that are only specified while references stay inside their subtrees
Allowed(x) ==
  /\ (x.op \in {"remove", "replace", "copy", "clone", "wrap", "save", "load", "can"} => Rooted(S.N, x.n))
  /\ (x.op = "layer" => x.n \notin Reach(S.N, x.m) /\ Len(S.N[x.n].ly) < 4)
  \* a replacement must not create a cycle
  /\ (x.op = "replace" => x.n \notin Reach(S.N, x.q)
                          /\ \A q \in Reach(S.N, x.q) : x.m \notin Reach(S.N, q))
  /\ (x.op = "params" => \A i \in 1..Len(x.ps) : x.ps[i].n # 0 => Has(S.N[x.ps[i].n].p, x.ps[i].k) = 2)
  /\ (x.op = "load" => CanLoad(S, x.n, S.M[x.m]))

Init == /\ start \in 1..Len(Graphs)
        /\ S = Build(S0, Graphs[start], 1)
        /\ hist = <<>>
        /\ ghost = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \E x \in Alphabet :
             /\ Allowed(x)
             /\ LET r == Eager(Do(S, x)) IN
                  /\ S' = r.S
                  /\ ghost' = IF x.op \in {"params", "ops", "val", "be"} THEN Append(ghost, [N |-> S.N, T |-> S.T, env |-> S.env])
                              ELSE IF x.op = "leave" THEN SubSeq(ghost, 1, Len(ghost) - 1) ELSE ghost
             /\ hist' = Append(hist, x)
        /\ start' = start
        /\ (Emit /\ Len(hist') = MaxLen) => PrintT("@@RUN " \o ToJson([g |-> Graphs[start], h |-> hist']))
Spec == Init /\ [][Next]_vars

Last == hist'[Len(hist')]
Trees == {n \in Nodes : n <= 4 \/ n = Len(S.N)}
\* ---------------------------------------------------------------- C04
WalkOnce == \A n \in Trees : \A o \in {"bfs", "dfs_pre", "dfs_post"} :
  LET w == Walk(S.N, n, o) IN
  /\ Range(w) = Reach(S.N, n)
  /\ Len(w) = Cardinality(Range(w))
  /\ o # "dfs_post" => w[1] = n
  /\ o = "dfs_post" => w[Len(w)] = n /\ \A m \in Range(w) : \A j \in 1..Len(S.N[m].ly) : Pos(w, S.N[m].ly[j]) < Pos(w, m)
RemoveProp == [][Last.op = "remove" =>
  /\ Last.m # Last.n => Last.m \notin Reach(S'.N, Last.n)
  /\ Rooted(S'.N, Last.n)
  /\ \A m \in Reach(S'.N, Last.n) : \A k \in DOMAIN S.N[m].r :
        S'.N[m].r[k] # S.N[m].r[k] => S'.N[m].r[k] = 0 /\ S.N[m].r[k] \notin Reach(S'.N, m)]_vars
ReplaceProp == [][Last.op = "replace" /\ Last.m # Last.n =>
  \A m \in Reach(S'.N, Last.n) : Last.m \notin Range(S'.N[m].ly) /\ (m # Last.m => Last.m \notin Range(S'.N[m].r))]_vars
\* ---------------------------------------------------------------- C05
CopyProp == [][Last.op = "copy" => LET n == Len(S.N) + 1 IN
  /\ Message(S', n) = Message(S, Last.n)
  \* gradients of the registered parameters come along
  /\ LET g(N, m) == [i \in 1..Len(Bfs(N, m)) |-> [k \in DOMAIN N[Bfs(N, m)[i]].g \cap DOMAIN N[Bfs(N, m)[i]].p |-> N[Bfs(N, m)[i]].g[k]]]
     IN g(S'.N, n) = g(S.N, Last.n)
  /\ Reach(S'.N, n) \cap Reach(S'.N, Last.n) = {}
  /\ \A m \in 1..Len(S.N) : S'.N[m] = S.N[m]]_vars
\* an operation below one node leaves nodes it cannot reach alone
Local == [][Last.op \notin {"newshim", "new", "leave", "ops", "val", "be", "shimgrad", "clone", "copy"} =>
  \A m \in Nodes : m \notin Reach(S.N, Last.n) => S'.N[m] = S.N[m]]_vars
OneNode == [][Last.op \in {"dim", "param", "inc", "grad", "ref", "attr", "attrapp"} =>
  \A m \in Nodes : m # Last.n => S'.N[m] = S.N[m]]_vars
\* ---------------------------------------------------------------- C06
RoundTrip == \A n \in Trees : Rooted(S.N, n) =>
  LET msg == Message(S, n) IN /\ CanLoad(S, n, msg)
                              /\ Compatible(S, n, msg, TRUE)
                              /\ LET L == Loaded(S, n, msg) IN L.N = S.N /\ L.T = S.T
CompatLoads == \A n \in Trees : \A m \in 1..Len(S.M) : Rooted(S.N, n) =>
  /\ Compatible(S, n, S.M[m], TRUE) => Compatible(S, n, S.M[m], FALSE)
  /\ Compatible(S, n, S.M[m], FALSE) =>
       /\ CanLoad(S, n, S.M[m])
       /\ LET L == Loaded(S, n, S.M[m]) IN
            \A j \in 1..Len(S.M[m]) :
               L.N[Bfs(S.N, n)[j]].p = S.M[m][j].p @@ S.N[Bfs(S.N, n)[j]].p
  /\ Compatible(S, n, S.M[m], TRUE) =>
       LET L == Loaded(S, n, S.M[m]) IN \A q \in Nodes : L.N[q].nm = S.N[q].nm /\ \A k \in DOMAIN S.N[q].a : L.N[q].a[k] = S.N[q].a[k]
\* ---------------------------------------------------------------- C03
ScopeProp == [][Last.op = "leave" =>
  LET g == ghost[Len(ghost)]
      s == S.sc[Len(S.sc)]
  IN /\ S'.env = g.env
     /\ s.t = "params" =>
          /\ \A i \in s.is : IF s.ps[i].n # 0 THEN S'.N[s.ps[i].n].p[s.ps[i].k] = g.N[s.ps[i].n].p[s.ps[i].k]
                             ELSE S'.T[s.ps[i].t].w = g.T[s.ps[i].t].w
          /\ \A m \in Nodes : \A k \in DOMAIN S.N[m].p :
               (\A i \in s.is : <<s.ps[i].n, s.ps[i].k>> # <<m, k>>) => S'.N[m].p[k] = S.N[m].p[k]]_vars
\* ---------------------------------------------------------------- C07
DimProp == [][\A m \in Nodes : \A k \in DOMAIN S.N[m].d :
   S.N[m].d[k] # <<>> /\ S'.N[m].d[k] # S.N[m].d[k] =>
      Last.op = "dim" /\ Last.force /\ \A q \in DOMAIN S.N[m].p : S.N[m].p[q] = <<>>]_vars
=============================================================================
