#!/usr/bin/env python3
"""Writes spec/Tables.tla: the logistic function and the softplus on a grid, in fixed point (2^16)."""
import math, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def rows(f):
    v = [str(round(f(k / 64.0) * 65536)) for k in range(-12 * 64, 12 * 64 + 1)]
    return ",\n    ".join(", ".join(v[i:i + 16]) for i in range(0, len(v), 16))
with open(os.path.join(ROOT, "spec", "Tables.tla"), "w") as o:
    o.write("------------------------------- MODULE Tables -------------------------------\n"
            "(* Generated by bin/mktables.py: entry k is f((k - 769) / 64) * 2^16.          *)\n"
            "LogisticTable == << \\* 1 / (1 + exp(x))\n    %s >>\n\nSoftplusTable == << \\* ln(1 + exp(x))\n    %s >>\n"
            "=============================================================================\n"
            % (rows(lambda x: 1 / (1 + math.exp(x))), rows(lambda x: math.log1p(math.exp(x)))))
