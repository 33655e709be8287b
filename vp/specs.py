"""Specifications of filter designs, written from the literature and not from the code."""
from .lib import *
from . import lib


def rbj_proto(kind, v):
    """analogue prototype (n2,n1,n0),(d2,d1,d0), critical frequency 1"""
    fc = v['fc']
    w0 = mul(mul(C(2), PI), fc)
    if 'q' in v:
        iq = div(ONE, v['q'])
        D = (ONE, iq, ONE)
        return {'LowPass': (ZERO, ZERO, ONE), 'HighPass': (ONE, ZERO, ZERO), 'BandPass1': (ZERO, ONE, ZERO), 'BandPass2': (ZERO, iq, ZERO),
                'BandStop': (ONE, ZERO, ONE), 'AllPass': (ONE, neg(iq), ONE)}[kind], D
    A = fn('pow', C(10), div(v['gain'], C(40)))
    if kind == 'BandShelf':
        iq = mul(C(2), fn('sinh', div(mul(mul(div(fn('log', C(2)), C(2)), v['bw']), w0), f1('sin', w0))))
        return (ONE, mul(A, iq), ONE), (ONE, div(iq, A), ONE)
    iq = fn('sqrt', add(mul(add(A, div(ONE, A)), sub(div(ONE, v['slope']), ONE)), C(2)))
    sa = mul(fn('sqrt', A), iq)
    if kind == 'LowShelf':
        return (A, mul(A, sa), mul(A, A)), (A, sa, ONE)
    return (mul(A, A), mul(A, sa), A), (ONE, sa, A)


def bilin(p, K):
    """polynomial in z^-1 of p2 s^2 + p1 s + p0 at s = K (1-z^-1)/(1+z^-1), times (1+z^-1)^2"""
    p2, p1, p0 = p
    q2, q1 = mul(mul(p2, K), K), mul(p1, K)
    return [add(add(q2, q1), p0), mul(C(2), sub(p0, q2)), add(sub(q2, q1), p0)]


def cot2(fc):
    h = mul(PI, fc)
    return div(f1('cos', h), f1('sin', h))


def rbj_spec(kind, v):
    if kind == 'IIRNotch':
        w0 = mul(mul(C(2), PI), v['fc'])
        r = f1('exp', neg(div(mul(PI, v['fc']), v['q'])))
        return [ONE, mul(C(-2), f1('cos', w0)), ONE], [ONE, mul(mul(C(-2), r), f1('cos', w0)), mul(r, r)]
    N, D = rbj_proto(kind, v)
    K = cot2(v['fc'])
    return bilin(N, K), bilin(D, K)


def rbj_points(kind, v):
    """(name, point, gain): documented gains"""
    fc = v['fc']
    if 'gain' in v:
        G = fn('pow', C(10), div(v['gain'], C(20)))
    return {'LowPass': [('DC', 'dc', ONE), ('Nyquist', 'ny', ZERO)], 'HighPass': [('DC', 'dc', ZERO), ('Nyquist', 'ny', ONE)],
            'BandPass1': [('centre', fc, v.get('q')), ('DC', 'dc', ZERO), ('Nyquist', 'ny', ZERO)],
            'BandPass2': [('centre', fc, ONE), ('DC', 'dc', ZERO), ('Nyquist', 'ny', ZERO)],
            'BandStop': [('centre', fc, ZERO), ('DC', 'dc', ONE), ('Nyquist', 'ny', ONE)],
            'IIRNotch': [('centre', fc, ZERO)],
            'LowShelf': [('DC', 'dc', v.get('gain') and G), ('Nyquist', 'ny', ONE)] if 'gain' in v else [],
            'HighShelf': [('DC', 'dc', ONE), ('Nyquist', 'ny', G)] if 'gain' in v else [],
            'BandShelf': [('centre', fc, G), ('DC', 'dc', ONE), ('Nyquist', 'ny', ONE)] if 'gain' in v else [],
            'AllPass': [('any frequency', sym('f?', 0.0, 0.5, nan=False), 'unit'), ('DC', 'dc', ONE), ('Nyquist', 'ny', ONE)]}[kind]


def at_point(B, A, pt):
    """numerator and denominator (re, im) at z = e^{i 2 pi pt} ('dc': z=1, 'ny': z=-1)"""
    def ev(p):
        if pt == 'dc':
            return (add(p[0], add(p[1], p[2])), ZERO)
        if pt == 'ny':
            return (add(sub(p[0], p[1]), p[2]), ZERO)
        w = mul(mul(C(2), PI), pt)
        c, s = f1('cos', w), f1('sin', w)
        c2, s2 = sub(mul(c, c), mul(s, s)), mul(mul(C(2), s), c)
        return (add(p[0], add(mul(p[1], c), mul(p[2], c2))), neg(add(mul(p[1], s), mul(p[2], s2))))
    return ev(B), ev(A)


def hurwitz(p2, p1, p0):
    """positive certificates for (1+a1+a2, 1-a1+a2, 1-a2) of the bilinear image of p2 s^2 + p1 s + p0"""
    S = add(add(p2, p1), p0)
    return [div(mul(C(4), p0), S), div(mul(C(4), p2), S), div(mul(C(2), p1), S)]


def rbj_stable(kind, v):
    if kind == 'IIRNotch':
        r = f1('exp', neg(div(mul(PI, v['fc']), v['q'])))
        c = f1('cos', mul(mul(C(2), PI), v['fc']))
        d = sub(ONE, r)
        return [add(mul(d, d), mul(mul(C(2), r), sub(ONE, c))), add(mul(d, d), mul(mul(C(2), r), add(ONE, c))), mul(d, add(ONE, r))]
    d2, d1, d0 = rbj_proto(kind, v)[1]
    K = cot2(v['fc'])
    return hurwitz(mul(mul(d2, K), K), mul(d1, K), d0)


def positive(rep, desc, key, gate, expr, cert, loc=None, n=400):
    """expr > 0 wherever gate holds: it equals the positive certificate, or no counterexample is known"""
    w = find_point(gate if isinstance(gate, B) else True, extra=[expr], n=n, pred=lambda e: nonpos(e, expr))
    if w is not None:
        rep.violate(key, desc + ': fails', loc, pt_show(w))
        return False
    v = decide_eq(gate, [(expr, ZERO)], nsearch=0)
    if v.ok and v.how in ('syntactic', 'algebraic'):
        rep.violate(key, desc + ': it is zero for every parameter', loc)
        return False
    v = decide_eq(gate, [(expr, cert)])
    if v.ok:
        rep.ob(desc, v.how)
    else:
        rep.undec(desc, 'differs from the certificate, but no counterexample found')
    return True


def nonpos(e, expr):
    v = e.ev(expr)
    if mp.isnan(v) or mp.isinf(v) or isinstance(v, mp.mpc):
        return False
    if v > 0:
        return False
    with mp.workdps(1500):
        from .terms import MpEval
        v = MpEval(dict(e.pt)).ev(expr)
        return not isinstance(v, mp.mpc) and v < -mp.mpf(10) ** -1000
