#!/usr/bin/env python3-vt
"""Reference values of the built-in functions (mpmath, 50 digits) -> harness/golden.tsv (committed).
Row: name, arguments, value (nan = no real value, inf = beyond f64), condition number sum |x_i f_i / f|."""
import random, os, sys
import mpmath as mp
from mpmath import mpf
mp.mp.dps = 50
R = random.Random(20240607)
POS = [1e-300, 1e-20, 1e-10, 1e-8, 1e-5, 1e-3, .01, .1, .25, .3, .5, .7, .9, .99, .999, 1, 1.001, 1.1, 1.4, 1.5, 1.6, 1.9, 2, 2.1, 2.5, 3, 3.7, 4, 5, 5.999, 6, 7.5, 7.999, 8, 8.001, 10, 12.3, 15, 15.5, 20, 25, 30, 37.5, 50, 75, 100, 150, 170, 171.5, 200, 500, 700, 1000, 1e4, 1e5, 1e6, 1e8, 1e10, 1e15, 1e100, 1e300]
def pts(lo=-1e300, hi=1e300, n=40, extra=()):
    v = [0.0] + POS + [-p for p in POS] + list(extra)
    v += [R.choice([-1, 1]) * 10 ** R.uniform(-4, 3) for _ in range(n)] + [R.uniform(-10, 10) for _ in range(n)] + [R.uniform(-1, 1) for _ in range(n // 2)]
    return sorted(set(float(x) for x in v if lo <= x <= hi))
half = mpf(1) / 2
def real(x):
    if isinstance(x, mp.mpc):
        if x.imag != 0: return mp.nan
        x = x.real
    return x
def gamma(x): return mp.nan if x <= 0 and x == mp.floor(x) else mp.gamma(x)
def psi(n, x): return mp.nan if x <= 0 and x == mp.floor(x) else real(mp.psi(n, x))
def legendre(l, m, x):
    if abs(x) > 1 or l < 0 or abs(m) > l: return mp.nan
    a = abs(m)
    # d^a/dx^a P_l by coefficients
    s = mpf(0)
    for k in range(l // 2 + 1):
        e = l - 2 * k
        if e < a: break
        c = mpf((-1) ** k) * mp.binomial(l, k) * mp.binomial(2 * l - 2 * k, l) / mpf(2) ** l
        s += c * mp.ff(e, a) * (x ** (e - a) if e > a else 1)
    v = (-1) ** a * (1 - x * x) ** (mpf(a) / 2) * s if a else s
    if m < 0: v *= (-1) ** a * mp.factorial(l - a) / mp.factorial(l + a)
    return v
def ylm(l, m, t, p):
    if l < 0 or abs(m) > l: return mp.nan
    a = abs(m)
    return mp.sqrt(mpf(2 * l + 1) / (4 * mp.pi) * mp.factorial(l - a) / mp.factorial(l + a)) * legendre(l, a, mp.cos(t)) * mp.cos(m * p)
def rnd(x):  # half away from zero
    return mp.sign(x) * mp.floor(abs(x) + half)
def zeta(x, n=0):
    if x == 1: return mp.nan
    return real(mp.zeta(x, 1, n)) if n else real(mp.zeta(x))
U = {
 'sin': mp.sin, 'cos': mp.cos, 'tan': mp.tan, 'cot': lambda x: mp.nan if x == 0 else 1 / mp.tan(x), 'sec': lambda x: 1 / mp.cos(x), 'csc': lambda x: mp.nan if x == 0 else 1 / mp.sin(x),
 'asin': lambda x: mp.asin(x) if abs(x) <= 1 else mp.nan, 'acos': lambda x: mp.acos(x) if abs(x) <= 1 else mp.nan, 'atan': mp.atan, 'acot': lambda x: mp.atan2(1, x),
 'asec': lambda x: mp.acos(1 / x) if abs(x) >= 1 else mp.nan, 'acsc': lambda x: mp.asin(1 / x) if abs(x) >= 1 else mp.nan,
 'sinh': mp.sinh, 'cosh': mp.cosh, 'tanh': mp.tanh, 'coth': lambda x: mp.nan if x == 0 else 1 / mp.tanh(x), 'sech': lambda x: 1 / mp.cosh(x), 'csch': lambda x: mp.nan if x == 0 else 1 / mp.sinh(x),
 'asinh': mp.asinh, 'acosh': lambda x: mp.acosh(x) if x >= 1 else mp.nan, 'atanh': lambda x: mp.atanh(x) if abs(x) < 1 else mp.nan,
 'acoth': lambda x: mp.atanh(1 / x) if abs(x) > 1 else mp.nan, 'asech': lambda x: mp.acosh(1 / x) if 0 < x <= 1 else mp.nan, 'acsch': lambda x: mp.asinh(1 / x) if x != 0 else mp.nan,
 'exp': mp.exp, 'exp_polar': mp.exp, 'ln': lambda x: mp.log(x) if x > 0 else mp.nan, 'log10': lambda x: mp.log10(x) if x > 0 else mp.nan, 'log2': lambda x: mp.log(x, 2) if x > 0 else mp.nan,
 'sqrt': lambda x: mp.sqrt(x) if x >= 0 else mp.nan, 'cbrt': lambda x: mp.sign(x) * mp.cbrt(abs(x)), 'abs': abs, 'signum': lambda x: mp.sign(x) if x != 0 else None, 'sinc': lambda x: mp.sinc(x),
 'floor': mp.floor, 'ceil': mp.ceil, 'round': rnd,
 'erf': mp.erf, 'erfc': mp.erfc, 'gamma': gamma, 'digamma': lambda x: psi(0, x), 'trigamma': lambda x: psi(1, x), 'tetragamma': lambda x: psi(2, x), 'zeta': zeta,
 'lambertw': lambda x: real(mp.lambertw(x)) if x > -mp.exp(-1) else mp.nan, 'elliptic_k': lambda k: mp.ellipk(k * k) if abs(k) < 1 else mp.nan, 'elliptic_e': lambda k: mp.ellipe(k * k) if abs(k) <= 1 else mp.nan,
}
LIM = {'gamma': (-170, 175), 'digamma': (-1e3, 1e300), 'trigamma': (-1e3, 1e300), 'tetragamma': (-1e3, 1e300), 'zeta': (-150, 1e300), 'lambertw': (-1, 1e300), 'sinh': (-1e4, 1e4), 'cosh': (-1e4, 1e4), 'sech': (-1e4, 1e4), 'csch': (-1e4, 1e4), 'exp': (-1e4, 1e4), 'exp_polar': (-1e4, 1e4), 'erf': (-1e10, 1e300), 'erfc': (-1e10, 1e6)}
EXTRA = {'lambertw': [-.3678, -.367, -.36, -.35, -.3, -.2999, -.2, -.1, -.05], 'gamma': [i + .5 for i in range(-12, 12)] + [-.1, -.9, -1.1, -10.2, -9.8], 'elliptic_k': [.95, .9999, .999999, -.95], 'elliptic_e': [.95, .9999, .999999],
 'digamma': [1.4616321449683622, 1.46, 1.47, .49, .51, -1.5, -7.3], 'zeta': [1.4999, 1.5001, 1.0001, .9999, .99, 1.01, -1e-5, -1e-4, -2e-4, -1.5, -3.5, -7.1, -20.3, 14, 55, 60], 'erf': [1.99, 2.01, 1.9999, 3.3, 4.4, 5.5], 'erfc': [1.99, 2.01, 3.3, 4.4, 5.5, 9, 20, 26]}
rows = []
def cond(f, a, idx, v):
    k = mpf(0)
    if v == 0 or not mp.isfinite(v): return 1e9 if v == 0 else 0.0
    for i in idx:
        if a[i] == 0: continue
        try:
            h = abs(a[i]) * mpf(10) ** -18
            b = list(a); c = list(a); b[i] = a[i] + h; c[i] = a[i] - h
            p, m = f(*b), f(*c)
            if mp.isnan(p): p, h = v, h / 2
            if mp.isnan(m): m, h = v, h / 2
            k += abs(a[i] * (p - m) / (2 * h) / v)
        except Exception: k += 1e9
    return float(min(k, mpf(10) ** 30))
def row(name, f, args, idx):
    a = [int(x) if i not in idx else mpf(x) for i, x in enumerate(args)]
    try: v = f(*a)
    except ZeroDivisionError: v = mp.nan
    except (ValueError, mp.libmp.NoConvergence, OverflowError) as e: print('skip', name, args, e, file=sys.stderr); return
    if v is None: return
    v = real(v)
    if mp.isnan(v): out, k = 'nan', 0
    elif mp.isinf(v): out, k = 'nan', 0
    elif abs(v) > mpf('1.7e308'): out, k = 'inf' if v > 0 else '-inf', 0
    else:
        k = 0.0 if name in ('floor', 'ceil', 'round', 'signum') else cond(f, a, idx, v)
        # a condition number measured across a zero or a pole says nothing
        out = repr(float(v))
    rows.append(f"{name}\t{','.join(repr(float(x)) for x in args)}\t{out}\t{k:.3g}")
for n, f in U.items():
    lo, hi = LIM.get(n, (-1e300, 1e300))
    for x in pts(lo, hi, extra=EXTRA.get(n, ())):
        if n in ('sin', 'cos', 'tan', 'cot', 'sec', 'csc') and abs(x) > 1e16: continue
        row(n, f, (x,), (0,))
S = [1e-8, 1e-3, .1, .5, .9, 1, 1.5, 2, 3, 3.7, 5, 7.99, 8, 8.01, 10, 15, 20, 30, 50, 100, 300]
def spread(n=12): return [R.uniform(0.05, 25) for _ in range(n)]
for n in list(range(0, 9)) + [12, 15, 20, 30, 50]:
    for x in S + spread():
        for s in (1, -1):
            row('besselj', lambda n, x: real(mp.besselj(n, x)), (n, s * x), (1,))
            row('besseli', lambda n, x: real(mp.besseli(n, x)), (n, s * x), (1,))
        row('bessely', lambda n, x: real(mp.bessely(n, x)), (n, x), (1,))
        row('besselk', lambda n, x: real(mp.besselk(n, x)), (n, x), (1,))
    for x in (0.0, -1.0, -2.5):
        row('bessely', lambda n, x: mp.nan, (n, x), (1,)); row('besselk', lambda n, x: mp.nan, (n, x), (1,))
    for x in (1.0, 2.5, 10.0, 25.0):
        row('besselj', lambda n, x: real(mp.besselj(n, x)), (-n, x), (1,)); row('besseli', lambda n, x: real(mp.besseli(n, x)), (-n, x), (1,))
        row('bessely', lambda n, x: real(mp.bessely(n, x)), (-n, x), (1,)); row('besselk', lambda n, x: real(mp.besselk(n, x)), (-n, x), (1,))
row('besselj', lambda n, x: mpf(1), (0, 0.0), (1,)); row('besseli', lambda n, x: mpf(1), (0, 0.0), (1,))
for n in range(0, 9):
    for x in pts(-30, 1e6, n=14): row('polygamma', lambda n, x: psi(n, x), (n, x), (1,))
for n in (-1, -3): row('polygamma', lambda n, x: mp.nan, (n, 1.5), (1,)); row('hermite', lambda n, x: mp.nan, (n, 1.5), (1,)); row('zeta_deriv', lambda n, x: mp.nan, (n, 2.5), (1,))
for n in range(0, 6):
    for x in [1.5, 2, 3, 4.5, 7, 10, 20, 40, 1.1, 1.01, .9, .5, .1, 0.0, -.5, -.9, -1.5, -2, -3, -4.2, -6, -8.7] + [R.uniform(-9, 12) for _ in range(10)]:
        row('zeta_deriv', lambda n, x: zeta(x, n), (n, x), (1,))
    row('zeta_deriv', lambda n, x: mp.nan, (n, 1.0), (1,))
for n in list(range(0, 13)) + [20, 35]:
    for x in [0.0, .1, -.1, .5, -.7, 1, -1, 1.5, 2.2, -3, 4, 7, 10, -25, 100] + [R.uniform(-5, 5) for _ in range(6)]:
        row('hermite', lambda n, x: mp.hermite(n, x), (n, x), (1,))
for l in list(range(0, 8)) + [12, 20]:
    for m in sorted({0, 1, 2, -1, -2, l, -l, l - 1, l + 1, 3}):
        for x in [0.0, .1, -.3, .5, -.75, .9, 1, -1, .999, 1.5] + [R.uniform(-1, 1) for _ in range(2)]:
            if abs(m) > l and x != .5: continue
            row('assoc_legendre', legendre, (l, m, x), (2,))
        if abs(m) > l and m > 0: row('ynm', lambda *a: mp.nan, (l, m, .5, .3), (2, 3)); continue
        for t, p in [(.3, .4), (1.1, -2), (2.5, 3), (1.5707963267948966, 1), (-.7, .2), (4.5, 7)]:
            if abs(m) > l: continue
            row('ynm', ylm, (l, m, t, p), (2, 3)); row('spherical_harmonic', ylm, (l, m, t, p), (2, 3))
A2 = [-1e10, -50.5, -3, -1.5, -1, -.2, -1e-8, 0.0, 1e-8, .1, .5, 1, 1.7, 2, 3, 10, 33.3, 1e5]
for y in A2:
    for x in A2:
        if y == 0 and x == 0: continue
        row('atan2', mp.atan2, (y, x), (0, 1))
for b in [-2, 0, .1, .5, .999, 1, 1.001, 1.5, 2, 2.718281828459045, 3, 10, 16, 100, 1e10]:
    for x in [-1, 0, 1e-10, .1, .5, 1, 2, 3, 8, 10, 100, 1000, 12345.678, 1e20]:
        row('log', lambda b, x: mp.nan if b <= 0 or b == 1 or x <= 0 else mp.log(x) / mp.log(b), (b, x), (0, 1))
def beta(a, b):
    for t in (a, b):
        if t <= 0 and t == mp.floor(t): return mp.nan
    return mp.beta(a, b)
for a in [1e-3, .1, .5, 1, 1.5, 2, 3, 5, 10, 30, 75, 84, 90, 120, 200, 1000]:
    for b in [1e-3, .2, .5, 1, 2, 2.5, 4, 7, 20, 50, 84, 100, 300]: row('beta', beta, (a, b), (0, 1))
for a, b in [(-.5, 1.2), (-1.5, 2.2), (2.2, -.7), (-.3, -.4), (0, 1), (1, 0), (-1, 2.5), (-3, -2.5), (.5, -3)]: row('beta', beta, (a, b), (0, 1))
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'golden.tsv')
open(out, 'w').write('\n'.join(rows) + '\n')
print(len(rows), 'rows')
