---- MODULE Fix ----
(* Fixed-point arithmetic in micro units (1 = 1000000), safe for TLC's 32-bit integers, and exact
   rationals <<num, den>> with den > 0. *)
EXTENDS Integers, Sequences
ONE == 1000000
AbsV(x) == IF x < 0 THEN -x ELSE x
MinV(a, b) == IF a < b THEN a ELSE b
MaxV(a, b) == IF a < b THEN b ELSE a
ClampV(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Inf == 2000000001
NegInf == -2000000001
NaN == 2000000003
Finite(x) == AbsV(x) < 2000000000
\* product of two magnitudes below ~46e6 each and with product below 2000e6
MulM(x, y) ==
  LET a == AbsV(x) b == AbsV(y)
      ah == a \div 1000 al == a % 1000 bh == b \div 1000 bl == b % 1000
      p == ah * bh + (ah * bl + al * bh) \div 1000 + (al * bl) \div 1000000
  IN IF (x < 0) # (y < 0) THEN -p ELSE p
SqM(x) == MulM(x, x)
RECURSIVE SqrtBis(_, _, _)
\* largest r in [lo, hi] with r*r <= q
SqrtBis(q, lo, hi) ==
  IF hi - lo <= 1 THEN lo
  ELSE LET m == (lo + hi) \div 2 IN IF SqM(m) <= q THEN SqrtBis(q, m, hi) ELSE SqrtBis(q, lo, m)
SqrtM(q) == IF q <= 0 THEN 0 ELSE SqrtBis(q, 0, 44700000)
RECURSIVE GcdV(_, _)
GcdV(a, b) == IF b = 0 THEN a ELSE GcdV(b, a % b)
Rat(n, d) == LET g == GcdV(AbsV(n), AbsV(d)) IN
             IF n = 0 THEN <<0, 1>> ELSE IF d < 0 THEN <<-(n \div g), -(d \div g)>> ELSE IF n < 0 THEN <<-((-n) \div g), d \div g>> ELSE <<n \div g, d \div g>>
RAdd(a, b) == Rat(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
RSub(a, b) == Rat(a[1] * b[2] - b[1] * a[2], a[2] * b[2])
RMul(a, b) == LET x == Rat(a[1], b[2]) y == Rat(b[1], a[2]) IN Rat(x[1] * y[1], x[2] * y[2])
RDiv(a, b) == RMul(a, IF b[1] < 0 THEN <<-b[2], -b[1]>> ELSE <<b[2], b[1]>>)
RInt(n) == <<n, 1>>
RLt(a, b) == a[1] * b[2] < b[1] * a[2]
RLe(a, b) == a[1] * b[2] <= b[1] * a[2]
RECURSIVE FracDigits(_, _, _)
\* remainder r (0 <= r < d) expanded to k decimal digits
FracDigits(r, d, k) == IF k = 0 THEN 0 ELSE LET t == (10 * r) \div d IN t * (10 ^ (k - 1)) + FracDigits((10 * r) % d, d, k - 1)
\* rational in micro units (truncated)
RMicro(a) == LET n == AbsV(a[1]) v == (n \div a[2]) * ONE + FracDigits(n % a[2], a[2], 6) IN IF a[1] < 0 THEN -v ELSE v
\* x / y in micro units, both micro, 0 <= x, y > 0, x/y below 2000
DivM(x, y) == (x \div y) * ONE + FracDigits(x % y, y, 6)
Near(a, b, tol) == IF ~Finite(a) \/ ~Finite(b) THEN a = b ELSE AbsV(a - b) <= tol
NearSeq(s, t, tol) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Near(s[i], t[i], tol)
====
