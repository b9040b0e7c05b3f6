"""Writes specs/LnTab.tla: natural logarithms of 1..2047 in micro units (run once; file is committed)."""
import math, os
v = [int(round(math.log(i) * 1e6)) for i in range(1, 2048)]
out = ["---- MODULE LnTab ----", "(* Natural logarithms, micro units. *)", "EXTENDS Fix", "LnIntTab == <<"]
for i in range(0, len(v), 14):
    out.append("  " + ", ".join(map(str, v[i:i + 14])) + ("," if i + 14 < len(v) else ""))
out.append(">>")
out.append(f"""Ln2 == {round(math.log(2) * 1e6)}
LnPi == {round(math.log(math.pi) * 1e6)}
Ln2Pi == {round(math.log(2 * math.pi) * 1e6)}
LnOne == {round(math.log(1e6) * 1e6)}
RECURSIVE Shifted(_, _)
\\* <<k, y>> with y = x div 2^k in 1024..2047
Shifted(x, k) == IF x \\div (2 ^ k) <= 2047 THEN k ELSE Shifted(x, k + 1)
LnOfInt(x) ==                      \\* any integer 1 .. 2^31 - 1
  IF x <= 2047 THEN LnIntTab[x]
  ELSE LET k == Shifted(x, 1)
           m == x \\div (2 ^ k)
           f == FracDigits(x % (2 ^ k), 2 ^ k, 6)
           r == f \\div m
       IN k * Ln2 + (k * 18) \\div 100 + LnIntTab[m] + r - (r * (r \\div 2000)) \\div 1000
\\* logarithm of a value given in micro units
LnM(x) == LnOfInt(x) - LnOne
RECURSIVE LnFactI(_)
LnFactI(n) == IF n <= 1 THEN 0 ELSE LnIntTab[n] + LnFactI(n - 1)
RECURSIVE LnHalfProd(_)
LnHalfProd(k) == IF k = 0 THEN 0 ELSE LnIntTab[2 * k - 1] - Ln2 + LnHalfProd(k - 1)
\\* ln Gamma(h/2 + 1) for a non-negative count given in halves
LnGammaHalf(h) == IF h % 2 = 0 THEN LnFactI(h \\div 2) ELSE LnPi \\div 2 + LnHalfProd((h + 1) \\div 2)
====""")
open(os.path.join(os.path.dirname(__file__), "..", "specs", "LnTab.tla"), "w").write("\n".join(out) + "\n")
