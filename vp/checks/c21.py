"""C21 shelving filters"""
from ..lib import *
from .. import designs
from ..designs import *

RULE = designs.RULE + ('Shelves: Butterworth |H|^2 = (w^(2n)+g)/(w^(2n)+1/g) with g = 10^(gain/20); Chebyshev families (parameter below |gain|): |H|^2 = (1+e^2 T_n^2(w))/(G^2+e^2 T_n^2(w)) with '
                       'G = 10^(-gain/20), e^2 = (G^2-Gb^2)/(Gb^2-1), Gb = 10^(-(gain -+ ripple)/20); w is the mapped frequency of the low-pass, high-pass or band-pass mapping. '
                       'Separate obligations: gain at DC/Nyquist with sign; 0 dB gives the identity; gain -g is the inverse of gain +g; with the parameter at or above |gain| the gain at '
                       'the boosted side stays within the parameter of the requested gain.')


def run(rep):
    no = tuple(range(1, 9)) + (11, 14, 19) if not rep.thorough() else tuple(range(1, 15)) + (19, 24, 32)
    ob = tuple(range(1, 5)) if not rep.thorough() else tuple(range(1, 7))
    kinds = ('LowShelf', 'HighShelf', 'BandShelf')
    cat = [(fam,) + x for fam in gen.FAMS for x in plan(rep, no, ob) if x[1] in kinds]
    m = machine(*[gen.pole(fam + p, fam, k, n) for fam, p, k, n in cat])
    rep.assume.append('double arithmetic is read as exact real arithmetic (rounding is not modelled); orders above the enumerated ones are not analysed')
    tasks = []
    for fam, p, kind, n in cat:
        for region in regions(fam, kind, clamp=n < 3 or rep.thorough()) + anyregions(fam, kind, n, 2):
            small = region[0].startswith('small')
            if small and n > (2 if kind == 'BandShelf' else 3):
                continue
            if kind == 'BandShelf' and n == 3 and fam != 'Butterworth' and not rep.thorough() and region[0] not in ('boost/mid', 'cut/upper'):
                continue
            tasks.append(('%s %s' % (fam + p, region[0]), lambda fam=fam, p=fam + p, kind=kind, n=n, region=region, small=small: (weak if small else one)(rep, m, p, fam, kind, n, region)))
    tasks.sort(key=lambda t: -int(''.join(c for c in t[0].split()[0] if c.isdigit())) * (2 if 'Band' in t[0] else 1))
    rep.par(m, tasks)
    return rep.finish(500)


def one(rep, m, p, fam, kind, n, region):
    x = identity(rep, m, p, fam, kind, n, region)
    if x is None:
        return
    k, s, o, cs, v, name, key, loc = x
    G = fn('pow', C(10), div(v['gain'], C(20)))
    if fam != 'Butterworth' and n % 2 == 0:
        r = v.get('ripple') or v.get('stop')
        G = fn('pow', C(10), div(sub(v['gain'], r) if region[0].startswith('boost') else add(v['gain'], r), C(20)))
    if kind == 'LowShelf':
        pts = [(ONE, G, 'gain at DC'), (C(-1), ONE, 'gain at Nyquist')]
    elif kind == 'HighShelf':
        pts = [(C(-1), G, 'gain at Nyquist'), (ONE, ONE, 'gain at DC')]
    else:
        pts = [(ONE, ONE, 'gain at DC'), (C(-1), ONE, 'gain at Nyquist')]
    for z, g, what in pts:
        rep.guard(name, lambda: gain_at(rep, x, z, g, what))
    if n > 1 and n <= 3:
        rep.guard(name, lambda: identity(rep, m, p, fam, kind, n, region, req=n - 1))
    if n <= (2 if kind == 'BandShelf' else 4):
        rep.guard(name, lambda: inverse(rep, m, x, p, fam, kind, n, region))
    if region[0] in [r[0] for r in regions(fam, kind)[:2]]:
        rep.guard(name, lambda: flat(rep, m, p, fam, kind, n, region))


def inverse(rep, m, x, p, fam, kind, n, region):
    k, s, o, cs, v, name, key, loc = x
    ps = [neg(v[q]) if q == 'gain' else v[q] for q in gen.params(fam, kind)]
    st, o2 = k.new(s)
    s2, _ = k.ok(st, '_n', o2, *ps)
    c2 = sections(k, s2, o2)
    if not k.defined(rep, s2.gate, c2, '_n', name + ' with negative gain', key):
        return
    z = sym('z', 1.1, 3.0, nan=False)
    (N, D), (N2, D2) = at(cs, z), at(c2, z)
    pr = [(mul(N, N2), mul(D, D2))]
    vd = decide_eq(s2.gate, pr, algebra=False)
    if vd.ok:
        vd = decide_eq(s2.gate, pr, sign=True)
    rep.decide('%s: the shelf with the negative gain is the inverse' % name, key + '/inverse', vd, loc)


def flat(rep, m, p, fam, kind, n, region):
    k = K(m, p)
    ps = dict(zip(gen.params(fam, kind), rsyms(fam, kind, region)))
    ps['gain'] = ZERO
    st, o = k.new()
    name = '%s (%s)' % (cname(fam, kind, n), region[0] or 'all parameters')
    loc = where(m, p + '_n')
    a = k.admit(rep, st, '_n', o, [ps[q] for q in gen.params(fam, kind)], name + ' at 0 dB', '%s/flat' % cname(fam, kind, n))
    if a is None:
        return
    s = a[0]
    cs = sections(k, s, o)
    if not k.defined(rep, s.gate, cs, '_n', name + ' at 0 dB', '%s/flat' % cname(fam, kind, n)):
        return
    z = sym('z', 1.1, 3.0, nan=False)
    N, D = at(cs, z)
    vd = decide_eq(s.gate, [(N, D)], algebra=False)
    if vd.ok:
        vd = decide_eq(s.gate, [(N, D)], sign=True)
    rep.decide('%s: 0 dB gain is the identity' % name, '%s/flat' % cname(fam, kind, n), vd, loc)


def weak(rep, m, p, fam, kind, n, region):
    """ripple parameter at or above |gain|"""
    k = K(m, p)
    for sgn in (1, -1):
        ps = dict(zip(gen.params(fam, kind), rsyms(fam, kind, region)))
        if sgn < 0:
            ps['gain'] = neg(ps['gain'])
        st, o = k.new()
        a = k.admit(rep, st, '_n', o, [ps[q] for q in gen.params(fam, kind)], cname(fam, kind, n) + ', parameter above |gain|', '%s/parameter-above-gain' % cname(fam, kind, n))
        if a is None:
            return
        s = a[0]
        cs = sections(k, s, o)
        if not k.defined(rep, s.gate, cs, '_n', cname(fam, kind, n) + ', parameter above |gain|', '%s/parameter-above-gain' % cname(fam, kind, n)):
            return
        par = ps.get('ripple') or ps.get('stop')
        key = '%s/parameter-above-gain' % cname(fam, kind, n)
        loc = where(m, p + '_n')
        name = '%s, parameter above |gain|' % cname(fam, kind, n)
        if kind == 'BandShelf':
            for z in (ONE, C(-1)):
                N, D = at(cs, z)
                rep.decide('%s: 0 dB outside' % name, key + '/outside', decide_eq(s.gate, [(mul(N, N), mul(D, D))]), loc)
            continue
        z, w = (ONE, C(-1)) if kind == 'LowShelf' else (C(-1), ONE)
        N, D = at(cs, w)
        rep.decide('%s: 0 dB on the other side' % name, key + '/other', decide_eq(s.gate, [(mul(N, N), mul(D, D))]), loc)
        N, D = at(cs, z)

        def off(e):
            a, b = e.ev(N), e.ev(D)
            if isinstance(a, mp.mpc) or isinstance(b, mp.mpc) or mp.isnan(a) or mp.isnan(b) or a == 0 or b == 0:
                return False
            dev = abs(20 * mp.log10(abs(a / b)) - e.ev(ps['gain']))
            return dev > e.ev(par) * (1 + mp.mpf(10) ** -6)
        pt = find_point(s.gate if isinstance(s.gate, B) else True, extra=[N, D, ps['gain'], par], n=150, pred=off)
        if pt is not None:
            rep.violate(key, '%s: the gain on the boosted side is off by more than the parameter' % name, loc, pt_show(pt))
        else:
            rep.ob('%s: gain within the parameter' % name, 'no witness')
