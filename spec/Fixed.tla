-------------------------------- MODULE Fixed --------------------------------
(***************************************************************************)
(* Real arithmetic in fixed point: the integer x stands for x / 65536.     *)
(* TLC integers have 32 bits, so values stay below 2^14 in magnitude       *)
(* (every operation fails rather than wraps around beyond that).           *)
(* Results are within a few units in the last place (about 1e-4); FixedMC  *)
(* checks the laws below on a grid.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

S == 65536
Big == 1073741824   \* 2^30
FAbs(a) == IF a < 0 THEN -a ELSE a
FMax(a, b) == IF a >= b THEN a ELSE b
FMin(a, b) == IF a <= b THEN a ELSE b
FNum(n, d) == (n * S) \div d      \* a small fraction
InRange(a) == IF FAbs(a) < Big THEN a ELSE Assert(FALSE, <<"out of range", a>>)

\* product of magnitudes
MulPos(a, b) ==
  LET a1 == a \div 32768  a0 == a % 32768
      b1 == b \div 32768  b0 == b % 32768
      hi == a1 * b1
      lo == ((a0 * b0) \div 32768 + ((a1 * b0) % 2) + ((a0 * b1) % 2) + 1) \div 2
  IN (IF hi < 65536 THEN hi * 16384 ELSE Assert(FALSE, <<"product out of range", a, b>>))
     + (a1 * b0) \div 2 + (a0 * b1) \div 2 + lo
FMul(a, b) == IF (a < 0) = (b < 0) THEN MulPos(FAbs(a), FAbs(b)) ELSE -MulPos(FAbs(a), FAbs(b))

\* quotient of magnitudes, long division in steps that fit
RECURSIVE DivBits(_, _, _, _, _)
DivBits(q, r, b, bits, step) ==
  IF bits = 0 THEN q
  ELSE LET p == 2^step  t == r * p IN DivBits(q * p + t \div b, t % b, b, bits - step, step)
DivPos(a, b) ==
  IF b < 16384 THEN DivBits(a \div b, a % b, b, 16, 16)
  ELSE IF b < 4194304 THEN DivBits(a \div b, a % b, b, 16, 8)
  ELSE IF b < 67108864 THEN DivBits(a \div b, a % b, b, 16, 4)
  ELSE DivBits(a \div b, a % b, b, 16, 1)
FDiv(a, b) == IF (a < 0) = (b < 0) THEN DivPos(FAbs(a), FAbs(b)) ELSE -DivPos(FAbs(a), FAbs(b))

\* square root by bisection
RECURSIVE SqrtIn(_, _, _)
SqrtIn(a, lo, hi) == IF hi - lo <= 1 THEN lo
                     ELSE LET m == (lo + hi) \div 2 IN IF MulPos(m, m) <= a THEN SqrtIn(a, m, hi) ELSE SqrtIn(a, lo, m)
FSqrt(a) == IF a = 0 THEN 0 ELSE SqrtIn(a, 0, IF a <= S THEN S + 1 ELSE IF a < 16777216 THEN 1048577 * 2 ELSE 8388608)

RECURSIVE FPow(_, _)
FPow(a, n) == IF n = 0 THEN S
              ELSE IF n % 2 = 0 THEN LET h == FPow(a, n \div 2) IN FMul(h, h)
              ELSE FMul(a, FPow(a, n - 1))

\* exponential: a = k ln 2 + r, Taylor in r
Ln2 == 45426
RECURSIVE ExpTaylor(_, _, _)
ExpTaylor(r, k, n) == IF k > n THEN S ELSE S + FMul(r, ExpTaylor(r, k + 1, n)) \div k
FExp(a) ==
  IF a < -786432 THEN 0                                    \* below -12
  ELSE LET k == (a + Ln2 \div 2) \div Ln2
           \* ln 2 with 8 more bits, for the larger multiples
           r == a - (k * 11629080 + 128) \div 256
           e == ExpTaylor(r, 1, 7)
       IN IF k >= 0 THEN (IF k <= 13 THEN e * 2^k ELSE Assert(FALSE, <<"exponential out of range", a>>))
          ELSE (e + 2^(-k - 1)) \div 2^(-k)

FSigmoid(a) == IF a >= 0 THEN FDiv(S, S + FExp(-a)) ELSE LET e == FExp(a) IN FDiv(e, S + e)
FTanh(a) == LET e == FExp(-2 * FAbs(a))
                t == FDiv(S - e, S + e)
            IN IF FAbs(a) > 524288 THEN (IF a >= 0 THEN S ELSE -S) ELSE IF a >= 0 THEN t ELSE -t

\* error function, Abramowitz and Stegun 7.1.26 (absolute error below 2e-7)
FErf(a) ==
  LET x == FAbs(a)
      t == FDiv(S, S + FMul(21469, x))                        \* 0.3275911
      p == FMul(t, 16700 + FMul(t, -18645 + FMul(t, 93156 + FMul(t, -95235 + FMul(t, 69562)))))
      y == S - FMul(p, FExp(-FMul(x, x)))
  IN IF x > 262144 THEN (IF a >= 0 THEN S ELSE -S) ELSE IF a >= 0 THEN y ELSE -y

\* natural logarithm of a positive number: bisection on FExp
RECURSIVE LogIn(_, _, _)
LogIn(a, lo, hi) == IF hi - lo <= 1 THEN lo
                    ELSE LET m == (lo + hi) \div 2 IN IF FExp(m) <= a THEN LogIn(a, m, hi) ELSE LogIn(a, lo, m)
FLog(a) == LogIn(a, -786431, 600000)

RECURSIVE FSumTo(_, _)
FSumTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + FSumTo(s, k - 1)
FSum(s) == FSumTo(s, Len(s))
FDot(a, b) == FSum([j \in 1..Len(a) |-> FMul(a[j], b[j])])

\* equal up to an absolute and a relative error
Near(a, b, tol) == FAbs(a - b) <= tol + FAbs(b) \div 512
RowNear(x, y, tol) == Len(x) = Len(y) /\ \A j \in 1..Len(x) : Near(x[j], y[j], tol)
RowsNear(X, Y, tol) == Len(X) = Len(Y) /\ \A j \in 1..Len(X) : RowNear(X[j], Y[j], tol)
=============================================================================
