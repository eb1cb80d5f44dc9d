------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* Machine words as sequences of bytes, lowest first (TLC integers have 32 *)
(* bits), and the hash functions of the library on them.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise, TLC

Now(v) == IF v = v THEN v ELSE <<>>    \* evaluate v now, once
WZero(n) == [j \in 1..n |-> 0]
\* a small number as a word
RECURSIVE WNum(_, _)
WNum(v, n) == IF n = 0 THEN <<>> ELSE <<v % 256>> \o WNum(v \div 256, n - 1)
WXor(a, b) == [j \in 1..Len(a) |-> a[j] ^^ b[j]]
At(a, j) == IF j \in 1..Len(a) THEN a[j] ELSE 0
\* p: what each byte should hold if it could; carries go up, out of the word at the top
RECURSIVE Carry(_, _, _)
Carry(p, j, up) == IF j > Len(p) THEN <<>> ELSE LET t == p[j] + up IN <<t % 256>> \o Carry(p, j + 1, t \div 256)
WAdd(a, b) == Carry([j \in 1..Len(a) |-> a[j] + b[j]], 1, 0)
RECURSIVE Conv(_, _, _, _)
Conv(a, b, k, j) == IF j > k THEN 0 ELSE a[j] * b[k + 1 - j] + Conv(a, b, k, j + 1)
WMul(a, b) == Carry(Now([k \in 1..Len(a) |-> Conv(a, b, k, 1)]), 1, 0)
WShr(a, s) == LET q == s \div 8  r == s % 8 IN
              [j \in 1..Len(a) |-> (At(a, j + q) \div 2^r) + ((At(a, j + q + 1) * 2^(8 - r)) % 256)]
WShl(a, s) == LET q == s \div 8  r == s % 8 IN
              [j \in 1..Len(a) |-> ((At(a, j - q) * 2^r) % 256) + (At(a, j - q - 1) \div 2^(8 - r))]
WRot(a, s) == LET l == Now(WShl(a, s))  h == Now(WShr(a, 8 * Len(a) - s)) IN [j \in 1..Len(a) |-> l[j] + h[j]]
\* remainder by a small number
RECURSIVE ModFrom(_, _, _, _)
ModFrom(a, n, j, r) == IF j = 0 THEN r ELSE ModFrom(a, n, j - 1, (r * 256 + a[j]) % n)
WMod(a, n) == ModFrom(a, n, Len(a), 0)
XorShr(a, s) == Now(WXor(a, Now(WShr(a, s))))

\* ---- MurmurHash3 of one 64-bit key into four 32-bit keys (seed is a 32-bit word)
M1 == <<213, 83, 66, 17, 145, 123, 195, 135>>     \* 87c37b91114253d5
M2 == <<127, 147, 69, 39, 67, 173, 245, 76>>      \* 4cf5ad432745937f
F1 == <<205, 140, 85, 237, 215, 175, 81, 255>>    \* ff51afd7ed558ccd
F2 == <<83, 236, 133, 26, 254, 185, 206, 196>>    \* c4ceb9fe1a85ec53
Finish64(h) == XorShr(WMul(XorShr(WMul(XorShr(h, 33), F1), 33), F2), 33)
Hash128(key, seed) ==
  LET s == seed \o WZero(4)
      k == Now(WMul(WRot(WMul(key, M1), 31), M2))
      h1 == Now(WXor(WXor(k, s), WNum(8, 8)))
      h2 == Now(WXor(s, WNum(8, 8)))
      a1 == Now(WAdd(h1, h2))
      a2 == Now(WAdd(h2, a1))
      b1 == Finish64(a1)
      b2 == Finish64(a2)
      c1 == Now(WAdd(b1, b2))
      c2 == Now(WAdd(b2, c1))
  IN <<SubSeq(c1, 1, 4), SubSeq(c1, 5, 8), SubSeq(c2, 1, 4), SubSeq(c2, 5, 8)>>

\* ---- MurmurHash3_x86_32 of a sequence of bytes
C1 == <<81, 45, 158, 204>>      \* cc9e2d51
C2 == <<147, 53, 135, 27>>      \* 1b873593
K5 == <<100, 107, 84, 230>>     \* e6546b64
G1 == <<107, 202, 235, 133>>    \* 85ebca6b
G2 == <<53, 174, 178, 194>>     \* c2b2ae35
Mix32(k) == Now(WMul(WRot(WMul(k, C1), 15), C2))
RECURSIVE Blocks32(_, _, _)
Blocks32(bytes, j, h) ==
  IF j + 3 > Len(bytes) THEN h
  ELSE Blocks32(bytes, j + 4, Now(WAdd(WMul(WRot(WXor(h, Mix32(SubSeq(bytes, j, j + 3))), 13), WNum(5, 4)), K5)))
Hash32(bytes, seed) ==
  LET n == Len(bytes)
      full == 4 * (n \div 4)
      h == Blocks32(bytes, 1, seed)
      t == IF full = n THEN h ELSE Now(WXor(h, Mix32([j \in 1..4 |-> At(bytes, full + j)])))
      u == Now(WXor(t, WNum(n, 4)))
  IN XorShr(WMul(XorShr(WMul(XorShr(u, 16), G1), 13), G2), 16)
\* of a 32-bit word to 64 bits, keeping the sign
Signed64(w) == w \o (IF w[4] >= 128 THEN <<255, 255, 255, 255>> ELSE WZero(4))

\* ---- MurmurHash64A of a sequence of 64-bit keys, seed 0
MA == <<149, 233, 209, 91, 147, 167, 164, 198>>   \* c6a4a7935bd1e995
RECURSIVE Blocks64(_, _, _)
Blocks64(keys, j, h) ==
  IF j > Len(keys) THEN h
  ELSE Blocks64(keys, j + 1, Now(WMul(WXor(h, WMul(XorShr(WMul(keys[j], MA), 47), MA)), MA)))
Hash64(keys) == LET h == Blocks64(keys, 1, Now(WMul(WNum(8 * Len(keys), 8), MA)))
                IN XorShr(WMul(XorShr(h, 47), MA), 47)
=============================================================================
