"""Regenerate harness/golden.txt (reference values for the double-double
library) with mpmath at 60 digits.  Run: python3-vt tools/golden.py"""
import random, mpmath as mp
mp.mp.dps = 60
random.seed(7)
out = []
def split(v):
    hi = float(v); lo = float(v - mp.mpf(hi)); return hi, lo
def emit(name, args, v):
    hi, lo = split(v)
    out.append(" ".join([name] + [repr(a) for a in args] + [repr(hi), repr(lo)]))
xs = [10 ** random.uniform(-8, 9) for _ in range(40)] + [0.5, 1.0, 2.0, 3.5, 45.0, 44.999, 1e-300]
for x in xs:
    emit("lgamma", [x], mp.loggamma(mp.mpf(x)))
    emit("digamma", [x], mp.digamma(mp.mpf(x)))
    emit("ln", [x], mp.log(mp.mpf(x)))
for _ in range(40):
    x = random.choice([-1, 1]) * 10 ** random.uniform(-12, 2.8)
    emit("exp", [x], mp.exp(mp.mpf(x)))
    emit("expm1", [x], mp.expm1(mp.mpf(x)))
    emit("atan", [x], mp.atan(mp.mpf(x)))
    y = random.choice([-1, 1]) * 10 ** random.uniform(-15, -0.01)
    emit("ln1p", [y], mp.log1p(mp.mpf(y)))
for _ in range(60):
    a = 10 ** random.uniform(-3, 4)
    x = a * 10 ** random.uniform(-1, 0.4) if random.random() < .7 else 10 ** random.uniform(-6, 2)
    P = mp.gammainc(mp.mpf(a), 0, mp.mpf(x), regularized=True)
    Q = mp.gammainc(mp.mpf(a), mp.mpf(x), mp.inf, regularized=True)
    if P > 1e-290 and Q > 1e-290:
        emit("gammap", [a, x], P); emit("gammaq", [a, x], Q)
for _ in range(80):
    a = 10 ** random.uniform(-3, 3); b = 10 ** random.uniform(-3, 3)
    m = a / (a + b)
    x = min(max(random.gauss(m, 2 * (m * (1 - m) / (a + b + 1)) ** .5), 1e-6), 1 - 1e-6)
    v = mp.betainc(mp.mpf(a), mp.mpf(b), 0, mp.mpf(x), regularized=True)
    if v > 1e-290: emit("betai", [a, b, x], v)
for _ in range(40):
    z = random.uniform(-35, 8)
    emit("normal", [z], mp.ncdf(mp.mpf(z)))
import os
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "golden.txt")
open(p, "w").write("\n".join(out) + "\n")
