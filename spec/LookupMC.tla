------------------------------ MODULE LookupMC ------------------------------
(***************************************************************************)
(* Design checks of Words and Lookup: laws of word arithmetic, published   *)
(* hash values, and adjointness and locality of gather and scatter.        *)
(***************************************************************************)
EXTENDS Lookup
CONSTANTS Bytes,      \* byte values of words in the arithmetic laws
          MaxRows, MaxIds, Vals
VARIABLES mode, a, b, idx, n
vars == <<mode, a, b, idx, n>>
Words4 == [1..4 -> Bytes]
Known == {<<<<>>, WZero(4), WZero(4)>>,
          <<<<>>, <<1, 0, 0, 0>>, <<183, 40, 78, 81>>>>,                                   \* 514e28b7
          <<<<>>, <<255, 255, 255, 255>>, <<57, 111, 241, 129>>>>,                        \* 81f16f39
          <<<<116, 101, 115, 116>>, WZero(4), <<19, 210, 107, 186>>>>,                     \* "test": ba6bd213
          <<<<72, 101, 108, 108, 111, 44, 32, 119, 111, 114, 108, 100, 33>>, WZero(4), <<67, 62, 54, 192>>>>,   \* "Hello, world!": c0363e43
          <<<<97, 97, 97, 97>>, <<140, 178, 71, 151>>, <<138, 128, 151, 90>>>>}            \* "aaaa", 9747b28c: 5a97808a
Init == mode = "start" /\ a = <<>> /\ b = <<>> /\ idx = <<>> /\ n = 0
Next == /\ mode = "start"
        /\ \/ mode' = "word" /\ a' \in Words4 /\ b' \in Words4 /\ UNCHANGED <<idx, n>>
           \/ mode' = "hash" /\ \E k \in Known : a' = k[1] /\ b' = k[2] /\ idx' = k[3] /\ UNCHANGED n
           \/ /\ mode' = "table" /\ n' \in 1..MaxRows
              /\ \E m \in 0..MaxIds : idx' \in [1..m -> {<<p>> : p \in 0..(MaxRows - 1)} \cup {<<p, q>> : p, q \in 0..(MaxRows - 1)}]
              /\ a' \in [1..MaxRows -> Vals] /\ b' \in [1..MaxIds -> Vals]
Spec == Init /\ [][Next]_vars
WNeg(x) == WAdd([j \in 1..4 |-> 255 - x[j]], WNum(1, 4))
Laws == mode = "word" =>
          /\ WAdd(a, b) = WAdd(b, a)
          /\ WMul(a, b) = WMul(b, a)
          /\ WAdd(a, WNeg(a)) = WZero(4)
          /\ WMul(a, WAdd(b, WNum(1, 4))) = WAdd(WMul(a, b), a)
          /\ \A s \in 1..31 : WRot(WRot(a, s), 32 - s) = a
          /\ \A s \in 0..31 : WShr(WShl(a, s), s) = (IF s = 0 THEN a ELSE WShr(WShl(a, s), s))
          /\ \A s \in 0..30 : WShl(a, s) = WMul(a, WShl(WNum(1, 4), s))
          /\ WXor(WXor(a, b), b) = a
          /\ \A m \in {1, 3, 7, 256, 1000} : WMod(a, m) = (((WMod(SubSeq(a, 3, 4), m) * (65536 % m)) % m) + WMod(SubSeq(a, 1, 2), m)) % m
HashesKnown == mode = "hash" => Hash32(a, b) = idx
\* tables of one column: <gather(T), d> = <T, scatter(d)>, and an unnamed row matters nowhere
Table(q) == [r \in 1..n |-> <<q[r]>>]
Ids == {p : p \in UNION {{idx[k][j] : j \in 1..Len(idx[k])} : k \in 1..Len(idx)}}
Adjoint == (mode = "table" /\ \A p \in Ids : p < n) =>
             LET Y == Gather(Table(a), 1, idx)
                 d == [k \in 1..Len(idx) |-> <<b[k]>>]
                 D == Scatter(n, 1, idx, d)
             IN /\ Sum([k \in 1..Len(idx) |-> Y[k][1] * d[k][1]]) = Sum([r \in 1..n |-> a[r] * D[r][1]])
                /\ \A r \in 1..n : (r - 1) \notin Ids => D[r] = <<0>>
=============================================================================
