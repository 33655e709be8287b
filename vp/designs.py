"""Magnitude specifications of the IIR designs (Butterworth, Chebyshev, Orfanidis shelves)."""
from .lib import *
from .specs import cot2



def tan_pi(f):
    h = mul(PI, f)
    return div(f1('sin', h), f1('cos', h))


def edges(v, region):
    """band edges in rad; the library clamps them to 1e-8 inside (0, pi)"""
    tiny = literal(1e-8)
    w = mul(mul(C(2), PI), v['fc'])
    h = mul(PI, v['fw'])
    lo, hi = sub(w, h), add(w, h)
    lab = region[0].split('/')[-1]
    if lab == 'any':
        # a band beyond the limits becomes the narrowest one there
        top, two = sub(PI, tiny), literal(2e-8)
        below = eng.c_lt(lo, tiny)
        hi = tite(band(below, eng.c_lt(hi, two)), two, hi)
        lo = tite(below, tiny, lo)
        above = eng.c_lt(top, hi)
        end = sub(PI, two)
        return tite(band(above, eng.c_lt(end, lo)), end, lo), tite(above, top, hi)
    if lab == 'low':
        lo = tiny
    if lab == 'high':
        hi = sub(PI, tiny)
    return lo, hi


def proto_s(kind, v, region, z):
    """analogue prototype variable at z: low-pass prototype with cutoff 1"""
    q = div(sub(z, ONE), add(z, ONE))
    if kind.startswith('Low'):
        return div(q, tan_pi(v['fc']))
    if kind.startswith('High'):
        return div(tan_pi(v['fc']), q)
    lo, hi = edges(v, region)
    half = C(Fr(1, 2))
    d, s = mul(sub(hi, lo), half), mul(add(hi, lo), half)
    a = div(f1('cos', s), f1('cos', d))
    b = div(f1('cos', d), f1('sin', d))
    num = add(sub(mul(z, z), mul(mul(C(2), a), z)), ONE)
    den = sub(mul(z, z), ONE)
    if kind == 'BandStop':
        return div(den, mul(b, num))
    return mul(b, div(num, den))


def cheb2(n, x):
    """T_n(w)^2 as a function of x = w^2"""
    y = sub(mul(C(2), x), ONE)
    a, b = ONE, y
    for _ in range(n - 1):
        a, b = b, sub(mul(mul(C(2), y), b), a)
    t = b if n else ONE
    return div(add(t, ONE), C(2))


def ipow(x, n):
    r = ONE
    for _ in range(n):
        r = mul(r, x)
    return r


def mag2(fam, kind, n, v, x):
    """(numerator, denominator) of |H|^2 at x = w^2"""
    if kind.endswith('Shelf'):
        if fam == 'Butterworth':
            G = fn('pow', C(10), div(v['gain'], C(20)))
            X = ipow(x, n)
            return add(X, G), add(X, div(ONE, G))
        r = v.get('ripple') or v.get('stop')
        return ('orf', r)
    if fam == 'Butterworth':
        return ONE, add(ONE, ipow(x, n))
    if fam == 'ChebyshevI':
        e2 = sub(fn('pow', C(10), div(v['ripple'], C(10))), ONE)
        return ONE, add(ONE, mul(e2, cheb2(n, x)))
    # Chebyshev II: e^2 T^2(1/w) / (1 + e^2 T^2(1/w))
    e2 = div(ONE, sub(fn('pow', C(10), div(v['stop'], C(10))), ONE))
    T2 = mul(e2, cheb2(n, div(ONE, x)))
    # reference: 1/(1 + 1/(e2 T_n^2(1/w)))
    return T2, add(ONE, T2)


def orfanidis(n, v, x, boost):
    """shelf with gain G on one side, 1 on the other; ripple on the G side"""
    g = v['gain']
    r = v.get('ripple') or v.get('stop')
    G2 = fn('pow', C(10), neg(div(g, C(10))))
    Gb2 = fn('pow', C(10), neg(div(sub(g, r) if boost else add(g, r), C(10))))
    e2 = div(sub(G2, Gb2), sub(Gb2, ONE))
    T2 = mul(e2, cheb2(n, x))
    return add(ONE, T2), add(G2, T2)


def spec(fam, kind, n, v, region, x):
    if kind.endswith('Shelf') and fam != 'Butterworth':
        return orfanidis(n, v, x, region[0].split('/')[0] == 'boost')
    return mag2(fam, kind, n, v, x)


def response2(cs, z):
    """(numerator, denominator) of H(z)H(1/z)"""
    N, D = ONE, ONE
    for w in (z, div(ONE, z)):
        i = div(ONE, w)
        i2 = mul(i, i)
        for b0, b1, b2, a1, a2 in cs:
            N = mul(N, add(b0, add(mul(b1, i), mul(b2, i2))))
            D = mul(D, add(ONE, add(mul(a1, i), mul(a2, i2))))
    return N, D


def at(cs, z):
    N, D = ONE, ONE
    i = div(ONE, z)
    i2 = mul(i, i)
    for b0, b1, b2, a1, a2 in cs:
        N = mul(N, add(b0, add(mul(b1, i), mul(b2, i2))))
        D = mul(D, add(ONE, add(mul(a1, i), mul(a2, i2))))
    return N, D


RULE = ('Coefficients (normalised by a0) of every active section after setupN with unknown parameters, per template order and parameter region: with z a free symbol, '
        'N(z)N(1/z) x denominator of the specification = D(z)D(1/z) x numerator of the specification, where the specification is |H|^2 as a rational function of w^2 and w is the '
        'bilinear prewarped frequency mapped to the low-pass prototype; decided by algebraic normalisation (Schwartz-Zippel over F_p in the field generated by the parameters and '
        'their trigonometric, exponential and root functions). ')


def plan(rep, orders, bands):
    return [('p%s%d' % (k, n), k, n) for k in gen.KINDS for n in (bands if k.startswith('Band') else orders)]


def anyregions(fam, kind, n, most):
    """all frequencies and widths at once (clamped edges as guarded cases)"""
    if not kind.startswith('Band') or n > most:
        return []
    if kind == 'BandShelf' and fam != 'Butterworth':
        return [('boost/any', {'gain': (6.0, 300.0), 'ripple': (0.001, 6.0), 'stop': (0.1, 6.0)}), ('cut/any', {'gain': (-300.0, -6.0), 'ripple': (0.001, 6.0), 'stop': (0.1, 6.0)})]
    return [('any', {})]


def sections(k, s, o):
    return [k.norm(s, o, i) for i in range(k.ok(s, '_stages', o)[1])]


def identity(rep, m, p, fam, kind, n, region, req=None):
    """the magnitude identity of one class in one parameter region"""
    k = K(m, p)
    st, o = k.new()
    ps = rsyms(fam, kind, region)
    op, args, r = ('_n', ps, n) if req is None else ('_nr', [req] + ps, req)
    loc = where(m, p + op)
    name = '%s%s (%s)' % (cname(fam, kind, n), '' if req is None else ', requested order %d' % req, region[0] or 'all parameters')
    key = '%s/%s' % (cname(fam, kind, n), region[0] or 'all')
    a = k.admit(rep, st, op, o, args, name, key)
    if a is None:
        return None
    s = a[0]
    cs = sections(k, s, o)
    if not k.defined(rep, s.gate, cs, op, name, key):
        return None
    z = sym('z', 1.1, 3.0, nan=False)
    v = dict(zip(gen.params(fam, kind), ps))
    sv = proto_s(kind, v, region, z)
    x = neg(mul(sv, sv))
    A, B = spec(fam, kind, r, v, region, x)
    N, D = response2(cs, z)
    rep.decide('%s: squared magnitude of the %d sections' % (name, len(cs)), key, decide_eq(s.gate, [(mul(N, B), mul(D, A))], names=['N(z)N(1/z) against D(z)D(1/z) times the specification']), loc)
    return k, s, o, cs, v, name, key, loc


def gain_at(rep, x, z, g, what):
    """H(z) = g > 0 at z = 1 or -1"""
    k, s, o, cs, v, name, key, loc = x
    N, D = at(cs, z)
    d = '%s: %s' % (name, what)
    vd = decide_eq(s.gate, [(N, mul(g, D))], algebra=False)
    if vd.ok:
        vd = decide_eq(s.gate, [(N, mul(g, D))], sign=True)
    rep.decide(d, key + '/' + what.replace(' ', '_'), vd, loc)


def dc_gain(fam, kind, n, v):
    """gain of the low/high-pass at DC/Nyquist"""
    if fam == 'ChebyshevI' and n % 2 == 0:
        return fn('pow', C(10), neg(div(v['ripple'], C(20))))
    return ONE


def run_family(rep, fam):
    no = tuple(range(1, 13)) + (14, 17, 20, 25, 33, 40) if not rep.thorough() else tuple(range(1, 27)) + (32, 40)
    ob = tuple(range(1, 7)) + (8, 11) if not rep.thorough() else tuple(range(1, 13))
    kinds = ('LowPass', 'HighPass', 'BandPass', 'BandStop')
    cat = [x for x in plan(rep, no, ob) if x[1] in kinds]
    m = machine(*[gen.pole(p, fam, k, n) for p, k, n in cat])
    rep.assume.append('double arithmetic is read as exact real arithmetic (rounding is not modelled); band edges within 1e-8 rad of 0 or pi are the clamped ones; orders above the enumerated ones are not analysed')
    tasks = []
    for p, kind, n in cat:
        for region in regions(fam, kind) + anyregions(fam, kind, n, 3 if rep.thorough() else 2):
            tasks.append(('%s %s' % (p, region[0]), lambda p=p, kind=kind, n=n, region=region: one(rep, m, p, fam, kind, n, region)))
    tasks.sort(key=lambda t: -int(''.join(c for c in t[0].split()[0] if c.isdigit())) * (2 if 'Band' in t[0] else 1))
    rep.par(m, tasks)
    return rep.finish(len(tasks) - 4)


def one(rep, m, p, fam, kind, n, region):
    x = identity(rep, m, p, fam, kind, n, region)
    if x is None:
        return
    v = x[4]
    if kind == 'LowPass':
        gain_at(rep, x, ONE, dc_gain(fam, kind, n, v), 'gain at DC')
    elif kind == 'HighPass':
        gain_at(rep, x, C(-1), dc_gain(fam, kind, n, v), 'gain at Nyquist')
    if n > 1 and n <= 4:
        identity(rep, m, p, fam, kind, n, region, req=n - 1)
