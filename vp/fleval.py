"""IEEE double evaluation of value-flow terms (F mode) at a point; used to confirm that a NaN
the analysis could not exclude is really reachable."""
import math
import numpy as np
from .terms import *

np.seterr(all='ignore')
F = np.float64


def _muldc3(a, b, c, d):
    ac, bd, ad, bc = a * c, b * d, a * d, b * c
    return ac - bd, ad + bc


def _divdc3(a, b, c, d):
    """complex division, C99 annex G"""
    logbw = np.maximum(abs(c), abs(d))
    e = 0
    if np.isfinite(logbw) and logbw != 0:
        e = math.frexp(float(logbw))[1] - 1
        c, d = np.ldexp(c, -e), np.ldexp(d, -e)
    den = c * c + d * d
    x = np.ldexp((a * c + b * d) / den, -e)
    y = np.ldexp((b * c - a * d) / den, -e)
    if np.isnan(x) and np.isnan(y):
        if den == 0 and (not np.isnan(a) or not np.isnan(b)):
            inf = np.copysign(F('inf'), c)
            x, y = inf * a, inf * b
        elif (np.isinf(a) or np.isinf(b)) and np.isfinite(c) and np.isfinite(d):
            a = np.copysign(F(1 if np.isinf(a) else 0), a)
            b = np.copysign(F(1 if np.isinf(b) else 0), b)
            x, y = F('inf') * (a * c + b * d), F('inf') * (b * c - a * d)
        elif np.isinf(logbw) and np.isfinite(a) and np.isfinite(b):
            c = np.copysign(F(1 if np.isinf(c) else 0), c)
            d = np.copysign(F(1 if np.isinf(d) else 0), d)
            x, y = F(0) * (a * c + b * d), F(0) * (b * c - a * d)
    return x, y


FN = dict(sin=np.sin, cos=np.cos, tan=np.tan, sinh=np.sinh, cosh=np.cosh, tanh=np.tanh, exp=np.exp, log=np.log, sqrt=np.sqrt, fabs=np.abs, asin=np.arcsin,
          acos=np.arccos, atan=np.arctan, asinh=np.arcsinh, acosh=np.arccosh, atanh=np.arctanh, log10=np.log10, log2=np.log2, exp2=np.exp2, expm1=np.expm1,
          log1p=np.log1p, cbrt=np.cbrt, floor=np.floor, ceil=np.ceil, trunc=np.trunc, pow=np.power, hypot=np.hypot, atan2=np.arctan2, fmod=np.fmod,
          fmin=np.fmin, fmax=np.fmax, copysign=np.copysign)


class FlEval(MpEval):
    def app(self, x):
        o = x.op
        a = [self.m[y.id] for y in x.args if isinstance(y, T)]
        if o == 'c':
            return F(x.args[0].numerator / x.args[0].denominator)
        if o == 'k':
            return F(KFLT[x.args[0]])
        if o == 'sp':
            return F(x.args[0])
        if o == 'sym':
            return F(self.pt[x.args[0]])
        if o == '+':
            return a[0] + a[1]
        if o == '-':
            return a[0] - a[1]
        if o == '*':
            return a[0] * a[1]
        if o == '/':
            return a[0] / a[1]
        if o == 'neg':
            return -a[0]
        if o == 'f32':
            return F(np.float32(a[0]))
        if o in ('cdiv_re', 'cdiv_im'):
            return _divdc3(*a)[o == 'cdiv_im']
        if o in ('csqrt_re', 'csqrt_im'):
            s = np.sqrt(complex(a[0], a[1])) if not (np.isnan(a[0]) or np.isnan(a[1])) else complex(float('nan'), float('nan'))
            return F(s.real if o == 'csqrt_re' else s.imag)
        if o == 'i2d':
            return F(self.iev(x.args[0]))
        if o in FN:
            return F(FN[o](*a))
        raise Undefined(o)

    def atomval(self, d):
        if d[0] in ('lt', 'eq'):
            x, y = self.ev(d[1]), self.ev(d[2])
            return bool(x < y) if d[0] == 'lt' else bool(x == y)
        if d[0] == 'nan':
            return bool(np.isnan(self.ev(d[1])))
        return MpEval.atomval(self, d)


SPECIAL = [float('nan'), float('inf'), -float('inf'), 0.0, 1.0, -1.0, 0.5, 0.25, 1e-320, 1e308, -1e308, 1e160, 1e-160, 2.0, -0.5]


def find_nan(gate, value, syms, n=3000, nan_ok=True):
    """a valuation (IEEE doubles) with gate true and value NaN"""
    import random
    sy = sorted(syms, key=lambda s: s.args[0])
    names = [s.args[0] for s in sy]

    def pts():
        base = {}
        for s in sy:
            lo, hi = SYM[s.id][0], SYM[s.id][1]
            base[s.args[0]] = 0.1 if lo == -INF and hi == INF else lo + (min(hi, lo + 1) - lo) * 0.3 if lo != -INF else hi - 1
        yield dict(base)
        for s in sy:
            for v in SPECIAL:
                yield dict(base, **{s.args[0]: v})
        for k in range(n):
            r = random.Random('nan%d' % k)
            p = dict(base)
            for q in names:
                w = r.random()
                if w < .55:
                    p[q] = r.choice(SPECIAL)
                elif w < .8:
                    p[q] = r.uniform(-1, 1)
            yield p
    for p in pts():
        ok = True
        for s in sy:
            lo, hi, f32, lop, hop, nan = SYM[s.id]
            v = p[s.args[0]]
            if v != v:
                ok = ok and nan
            else:
                ok = ok and lo <= v <= hi and (nan or abs(v) != INF or abs(lo) == INF and abs(hi) == INF)
        if not ok:
            continue
        e = FlEval(dict(p))
        try:
            if e.cond(gate) and np.isnan(e.ev(value)):
                return p
        except Undefined:
            continue
    return None
