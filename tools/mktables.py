#!/usr/bin/env python3
"""Writes spec/AcquiTables.tla: the transcendental functions of the acquisition functions in fixed point (x 10000)."""
import math, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 10000
def Phi(z): return 0.5 * math.erfc(-z / math.sqrt(2))
def phi(z): return math.exp(-0.5 * z * z) / math.sqrt(2 * math.pi)
def ei(x, s): return x * Phi(x / s) + s * phi(x / s)
N = 30
out = ["------------------------------ MODULE AcquiTables -----------------------------",
       "(* Generated by tools/mktables.py. All values are x 10000, rounded. *)", "EXTENDS Integers, Sequences",
       "\\* expected improvement for a standard deviation s (1..3) and an improvement of q quarters (-%d..%d), index q + %d" % (4 * N, 4 * N, 4 * N + 1)]
out.append("EITable == <<\n" + ",\n".join("  <<" + ", ".join(str(round(S * ei(q / 4, s))) for q in range(-4 * N, 4 * N + 1)) + ">>" for s in (1, 2, 3)) + ">>")
out.append("EIOf(q, s) == EITable[s][q + %d]" % (4 * N + 1))
out.append("\\* normal distribution function at d/s, index d + 13")
out.append("PhiTable == <<\n" + ",\n".join("  <<" + ", ".join(str(round(S * Phi(d / s))) for d in range(-12, 13)) + ">>" for s in (1, 2, 3)) + ">>")
out.append("PhiOf(d, s) == PhiTable[s][d + 13]")
ITS = (0, 1, 2, 3, 4, 5, 20, 100, 5000)
out.append("\\* iterations of the tables\nIts == <<" + ", ".join(map(str, ITS)) + ">>\nItIdx(it) == CHOOSE i \\in DOMAIN Its : Its[i] = it")
out.append("\\* sqrt(2 log(n^(D/2+2) pi^2 / (3 delta))), delta in {0.1, 0.5, 0.9}, n = iteration + 1, D in 1..4")
def beta(dl, n, D): return math.sqrt(2 * math.log(n ** (D / 2 + 2) * math.pi ** 2 / (3 * dl)))
out.append("BetaTable == <<\n" + ",\n".join("  <<" + ", ".join("<<" + ", ".join(str(round(S * beta(dl, i + 1, D))) for D in range(1, 5)) + ">>" for i in ITS) + ">>" for dl in (0.1, 0.5, 0.9)) + ">>")
out.append("BetaOf(k, it, D) == BetaTable[k][ItIdx(it)][D]")
out.append("\\* sqrt(2 log(pi^2 M^2 / (12 nu))) + 1/5, nu in {0.05, 0.2, 0.5}, M = iteration + 1")
out.append("ZetaTable == <<\n" + ",\n".join("  <<" + ", ".join(str(round(S * (math.sqrt(2 * math.log(math.pi ** 2 * (i + 1) ** 2 / (12 * nu))) + 0.2))) for i in ITS) + ">>" for nu in (0.05, 0.2, 0.5)) + ">>")
out.append("ZetaOf(k, it) == ZetaTable[k][ItIdx(it)]")
out.append("=" * 79)
open(H + "/spec/AcquiTables.tla", "w").write("\n".join(out) + "\n")
