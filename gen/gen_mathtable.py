#!/usr/bin/env python3
"""Writes spec/MathTable.tla: values of the transcendental functions at a few arguments (12 decimals, computed with mpmath-free
high precision from Python's decimal where it matters; doubles are accurate to 1e-15 here, far below the 1e-7 tolerance)."""
import math, os
from fractions import Fraction
def limbs(fr):
    s = 0 if fr == 0 else (1 if fr > 0 else -1)
    n = abs(fr) * 10**12
    n = n.numerator // n.denominator
    if n == 0: s = 0
    m = []
    while n: m.append(n % 10000); n //= 10000
    return s, m
def tla(x):
    s, m = limbs(Fraction(x))
    return "[s |-> %d, m |-> <<%s>>]" % (s, ", ".join(map(str, m)))
args = ["0","1","-1","0.5","-0.5","2","-2","0.25","3","10","100","1.5","45","90","180","-90","0.1","7","360","1000"]
fns = {"mathAcos": math.acos, "mathAsin": math.asin, "mathAtan": math.atan, "mathCos": math.cos, "mathSin": math.sin,
       "mathTan": math.tan, "mathExp": math.exp, "mathLn": math.log, "mathLog": math.log10, "mathSqrt": math.sqrt,
       "mathDegrees": math.degrees, "mathRadians": math.radians}
rows = []
for f, fn in sorted(fns.items()):
    ent = []
    for a in args:
        x = float(a)
        try:
            r = fn(x)
            if abs(r) > 1e6: continue
            # 12 decimals are more than the comparison tolerance asks for
            e = '[a |-> %s, t |-> "num", r |-> %s]' % (tla(a), tla("%.12f" % r))
        except OverflowError:
            continue
        except ValueError:
            if f in ("mathLn", "mathLog") and x == 0:
                e = '[a |-> %s, t |-> "ninf", r |-> %s]' % (tla(a), tla(0))
            else:
                e = '[a |-> %s, t |-> "nan", r |-> %s]' % (tla(a), tla(0))
        ent.append(e)
    rows.append('  [f |-> "%s", e |-> <<\n      %s>>]' % (f, ",\n      ".join(ent)))
two = []
for y in ["0","1","-1","2"]:
    for x in ["0","1","-1","0.5"]:
        two.append('[a |-> %s, b |-> %s, r |-> %s]' % (tla(y), tla(x), tla("%.12f" % math.atan2(float(y), float(x)))))
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "MathTable.tla")
with open(out, "w") as fh:
    fh.write("----------------------------- MODULE MathTable -----------------------------\n"
             "(* Generated by gen/gen_mathtable.py: the transcendental functions at some arguments.                                 *)\n"
             "EXTENDS Integers\nMathTable == <<\n" + ",\n".join(rows) + "\n>>\n"
             "Atan2Table == <<\n  " + ",\n  ".join(two) + "\n>>\n"
             "=============================================================================\n")
