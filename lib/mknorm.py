"""Writes specs/NormTab.tla: log of the standard normal CDF on a 1/64 grid, micro units (run once; file is committed)."""
import os
from scipy.stats import norm, chi2
v = [int(round(norm.logcdf(-12 + i / 64) * 1e6)) for i in range(24 * 64 + 1)]
out = ["---- MODULE NormTab ----", "EXTENDS Integers, Sequences",
       "\\* ln Phi(x), x = -12 .. 12 in steps of 1/64, in micro units", "LogPhiTab == <<"]
for i in range(0, len(v), 12):
    out.append("  " + ", ".join(map(str, v[i:i + 12])) + ("," if i + 12 < len(v) else ""))
out.append(">>")
out.append("""
\\* ln Phi(x) for x in micro units (linear interpolation, error below 50 micro); clamped outside the table
LogPhi(x) ==
  LET y == x + 12000000 IN
  IF y <= 0 THEN LogPhiTab[1]
  ELSE IF y >= 24000000 THEN 0
  ELSE LET i == y \\div 15625
           r == (y % 15625) \\div 125
           d == LogPhiTab[i + 2] - LogPhiTab[i + 1]
       IN LogPhiTab[i + 1] + (d * r) \\div 125
====""")
open(os.path.join(os.path.dirname(__file__), "..", "specs", "NormTab.tla"), "w").write("\n".join(out) + "\n")
