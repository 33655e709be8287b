"""C22 stability of the designs"""
from ..lib import *
from ..designs import *

RULE = ('Denominators of all active sections after setup with unknown parameters, per order and parameter region: with z a free symbol their product must equal the certificate '
        'prod_k (s(z)-p_k)(s(z)-p_k*) (normalised), where s(z) is the frequency mapping and p_k are explicit prototype poles whose real part is minus a product of positive quantities; the '
        'mapping takes the left half plane into the unit disc, so the identity bounds every pole (decided by algebraic normalisation). Independently, for every section an admissible '
        'valuation violating 1+a1+a2 > 0, 1-a1+a2 > 0 or 1-a2 > 0 is searched; one is the violation.')


def run(rep):
    no = tuple(range(1, 11)) + (13, 16, 21, 34) if not rep.thorough() else tuple(range(1, 21)) + (26, 33, 40)
    ob = tuple(range(1, 6)) + (7,) if not rep.thorough() else tuple(range(1, 11))
    cat = [(fam,) + x for fam in gen.FAMS for x in plan(rep, no, ob)]
    m = machine(*[gen.pole(fam + p, fam, k, n) for fam, p, k, n in cat])
    rep.assume.append('double arithmetic is read as exact real arithmetic (rounding is not modelled); orders above the enumerated ones are not analysed')
    tasks = []
    for fam, p, kind, n in cat:
        for region in regions(fam, kind, clamp=n < 3 or rep.thorough()) + anyregions(fam, kind, n, 2):
            if region[0].startswith('small') and kind == 'BandShelf' and n > 2:
                continue
            tasks.append(('%s %s' % (fam + p, region[0]), lambda fam=fam, p=fam + p, kind=kind, n=n, region=region: one(rep, m, p, fam, kind, n, region)))
    tasks.sort(key=lambda t: -int(''.join(c for c in t[0].split()[0] if c.isdigit())) * (2 if 'Band' in t[0] else 1))
    rep.par(m, tasks)
    return rep.finish(550)


def poles(fam, kind, n, v, region):
    """(twice the negated real part, squared modulus) of the pole pairs, negated real pole or None"""
    N = C(n)
    th = [div(mul(PI, C(2 * i - 1)), C(2 * n)) for i in range(1, n // 2 + 1)]
    if fam == 'Butterworth':
        r = ONE
        if kind.endswith('Shelf'):
            # modulus g^-1, g = 10^(gain/40/n)
            r = fn('pow', C(10), neg(div(v['gain'], C(40 * n))))
        m2 = mul(r, r)
        return [(mul(mul(C(2), r), f1('sin', t)), m2) for t in th], r if n & 1 else None
    if kind.endswith('Shelf'):
        g, r = v['gain'], v.get('ripple') or v.get('stop')
        side = region[0].split('/')[0]
        if side == 'small':
            r = div(g, C(2))
        G = fn('pow', C(10), neg(div(g, C(20))))
        Gb = fn('pow', C(10), neg(div(add(g, r) if side == 'cut' else sub(g, r), C(20))))
        eps = fn('sqrt', div(sub(mul(G, G), mul(Gb, Gb)), sub(mul(Gb, Gb), ONE)))
        x = add(div(G, eps), mul(Gb, fn('sqrt', add(ONE, div(ONE, mul(eps, eps))))))
    else:
        if fam == 'ChebyshevI':
            e2 = sub(fn('pow', C(10), div(v['ripple'], C(10))), ONE)
            x = div(ONE, fn('sqrt', e2))
        else:
            x = fn('sqrt', sub(fn('pow', C(10), div(v['stop'], C(10))), ONE))
        x = add(x, fn('sqrt', add(mul(x, x), ONE)))
    mu = div(fn('log', x), N)
    sh, ch = f1('sinh', mu), f1('cosh', mu)
    ps = []
    for t in th:
        re, im = mul(sh, f1('sin', t)), mul(ch, f1('cos', t))
        ps.append((mul(C(2), re), add(mul(re, re), mul(im, im))))
    if fam == 'ChebyshevII' and not kind.endswith('Shelf'):
        # reciprocal prototype
        return [(div(a, q), div(ONE, q)) for a, q in ps], div(ONE, sh) if n & 1 else None
    return ps, sh if n & 1 else None


def certificate(fam, kind, n, v, region, z):
    """prod (s-p)(s-p*) as a polynomial in 1/z with leading coefficient 1"""
    if kind.startswith('Band'):
        lo, hi = edges(v, region)
        half = C(Fr(1, 2))
        d, s = mul(sub(hi, lo), half), mul(add(hi, lo), half)
        a, b = div(f1('cos', s), f1('cos', d)), div(f1('cos', d), f1('sin', d))
        X, xl = mul(b, add(sub(mul(z, z), mul(mul(C(2), a), z)), ONE)), b
        Y, yl, deg = sub(mul(z, z), ONE), ONE, 2
    else:
        K = tan_pi(v['fc'])
        X, xl = sub(z, ONE), ONE
        Y, yl, deg = mul(K, add(z, ONE)), K, 1
    if kind in ('HighPass', 'BandStop', 'HighShelf'):
        X, xl, Y, yl = Y, yl, X, xl
    R = ONE
    ps, real_ = poles(fam, kind, n, v, region)
    for a, q in ps:
        f = add(add(mul(X, X), mul(a, mul(X, Y))), mul(q, mul(Y, Y)))
        l = add(add(mul(xl, xl), mul(a, mul(xl, yl))), mul(q, mul(yl, yl)))
        R = mul(R, div(f, mul(l, ipow(z, 2 * deg))))
    if real_ is not None:
        R = mul(R, div(add(X, mul(real_, Y)), mul(add(xl, mul(real_, yl)), ipow(z, deg))))
    return R


def one(rep, m, p, fam, kind, n, region):
    k = K(m, p)
    st, o = k.new()
    ps = rsyms(fam, kind, region)
    loc = where(m, p + '_n')
    name = '%s (%s)' % (cname(fam, kind, n), region[0] or 'all parameters')
    key = '%s/%s' % (cname(fam, kind, n), region[0] or 'all')
    a = k.admit(rep, st, '_n', o, ps, name, key)
    if a is None:
        return
    s = a[0]
    cs = sections(k, s, o)
    if not k.defined(rep, s.gate, cs, '_n', name, key):
        return
    v = dict(zip(gen.params(fam, kind), ps))
    ex = []
    for c in cs:
        a1, a2 = c[3:]
        ex += [add(ONE, add(a1, a2)), add(sub(ONE, a1), a2), sub(ONE, a2)]

    def bad(e):
        for x in ex:
            u = e.ev(x)
            if isinstance(u, mp.mpc) or mp.isnan(u) or mp.isinf(u) or u > 0:
                continue
            with mp.workdps(400):
                e2 = MpEval(dict(e.pt))
                if e2.ev(x) < -mp.mpf(10) ** -300:
                    return True
        return False
    w = find_point(s.gate if isinstance(s.gate, B) else True, extra=ex, n=60 if not rep.thorough() else 300, pred=bad, goals=[g for g in (eng.c_lt(x, ZERO) for x in ex) if isinstance(g, B)])
    if w is not None:
        rep.violate(key, '%s: a pole lies outside the unit circle' % name, loc, pt_show(w))
        return
    for x in ex:
        if x is ZERO:
            rep.violate(key, '%s: a pole lies on the unit circle for every parameter' % name, loc)
            return
    rep.ob('%s: no unstable valuation of the %d sections' % (name, len(cs)), 'no witness')
    z = sym('z', 1.1, 3.0, nan=False)
    D = ONE
    i = div(ONE, z)
    for c in cs:
        D = mul(D, add(ONE, add(mul(c[3], i), mul(c[4], mul(i, i)))))
    vd = decide_eq(s.gate, [(D, certificate(fam, kind, n, v, region, z))])
    if vd.ok:
        rep.ob('%s: poles are images of left half plane prototype poles' % name, vd.how)
    else:
        rep.undec(name, 'denominator differs from the certificate: ' + vd.detail)
