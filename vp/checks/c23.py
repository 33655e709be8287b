"""C23 reported poles and zeros"""
from ..lib import *

RULE = ('(a) getPoleZeros() of a biquad and of a cascade with unknown stored coefficients (any stage count): one entry per active section, in order, whose poles p1, p2 and zeros z1, z2 satisfy '
        'p1+p2 = -a1, p1 p2 = a2, b0 (z1+z2) = -b1, b0 z1 z2 = b2 (real and imaginary part) in every guarded case (first-order, real roots, complex roots); '
        '(b) getPoleZeros() of every designer class after setup with unknown parameters is consistent with the coefficients of the same section, region by region; '
        '(c) setPoleZeroForm(BiquadPoleState(section)) reproduces the normalised coefficients. Identities are decided by algebraic normalisation.')


def run(rep):
    no = (1, 2, 3, 4, 5, 6) if not rep.thorough() else tuple(range(1, 9))
    ob = (1, 2, 3) if not rep.thorough() else (1, 2, 3, 4)
    cat = [('p%s%s%d' % (f, q, n), f, q, n, None) for f in gen.FAMS for q in gen.KINDS for n in (ob if q.startswith('Band') else no)]
    m = machine(*cparts(cat), *[gen.rbj('r' + q, q) for q in ('LowPass', 'BandShelf', 'IIRNotch')], gen.biquad('bq'), gen.onepole('op'), gen.twopole('tp'))
    rep.assume.append('double arithmetic is read as exact real arithmetic (rounding is not modelled); sections with b0 = 0 have a zero at infinity and are left out')
    tasks = []
    for p, fam, kind, n, s in cat:
        rs = [r for r in regions(fam, kind, clamp=rep.thorough() or n < 3)]
        if kind == 'BandShelf' and n > 2 and not rep.thorough():
            rs = rs[:2]
        for r in rs:
            tasks.append(('%s %s' % (p, r[0]), lambda p=p, fam=fam, kind=kind, n=n, r=r: pole(rep, m, p, fam, kind, n, r)))
        if fam == 'Butterworth' and kind in ('LowPass', 'BandStop'):
            tasks.append(('%s cascade' % p, lambda p=p, fam=fam, kind=kind, n=n: casc(rep, m, p, fam, kind, n)))
    for p in ['bq', 'op', 'tp', 'rLowPass', 'rBandShelf', 'rIIRNotch']:
        tasks.append((p, lambda p=p: biq(rep, m, p)))
    rep.par(m, tasks)
    return rep.finish(400)


def roots(pz):
    p1, p2, z1, z2 = [(pz[2 * i], pz[2 * i + 1]) for i in range(4)]

    def sp(a, b):
        return add(a[0], b[0]), add(a[1], b[1]), *cmul(*a, *b)
    return sp(p1, p2), sp(z1, z2)


def pairs(pz, c):
    b0, b1, b2, a1, a2 = c
    (sr, si, pr, pi), (tr, ti, qr, qi) = roots(pz)
    return [(sr, neg(a1)), (si, ZERO), (pr, a2), (pi, ZERO), (mul(b0, tr), neg(b1)), (mul(b0, ti), ZERO), (mul(b0, qr), b2), (mul(b0, qi), ZERO)]


NAMES = ['sum of the poles', 'sum of the poles (imag)', 'product of the poles', 'product of the poles (imag)', 'sum of the zeros', 'sum of the zeros (imag)', 'product of the zeros', 'product of the zeros (imag)']


def get(rep, m, k, st, o, op, i, name, key, loc, gate=True):
    st = st.fork(st.gate)
    b = m.alloc(st, 72, 'out')
    r = k.call(st, op, o, *([i] if i is not None else []), b)
    if r.throws:
        w = find_point(band(gate, r.throw_gate()), n=200)
        if w is not None:
            rep.violate(key + '/throw', '%s: throws' % name, loc, pt_show(w))
            return None
    if r.st is None:
        rep.violate(key + '/throw', '%s: throws' % name, loc)
        return None
    c = r.st.mem[b.obj].cells
    return r.st, [c[8 * j][1] for j in range(9 if op == '_bps' else 8)]


def finite(c, a0=None):
    """sections with finite roots"""
    g = bnot(eng.c_eq(c[0], ZERO))
    return g if a0 is None else band(g, bnot(eng.c_eq(a0, ZERO)))


def biq(rep, m, p):
    k = K(m, p)
    st, o = k.new()
    q = [real('q%d' % i) for i in range(6)]
    variants = [('any', q), ('first order', q[:2] + [ZERO] + q[3:5] + [ZERO]), ('a2 = 0', q[:2] + [ZERO] + q[3:]), ('b2 = 0', q[:5] + [ZERO]), ('a0 = 1', [ONE] + q[1:]),
                ('first order, a0 = 1', [ONE, q[1], ZERO, q[3], q[4], ZERO]), ('identity', None), ('double', [ONE, mul(C(-2), q[0]), mul(q[0], q[0]), ONE, mul(C(2), q[1]), mul(q[1], q[1])])]
    if p == 'bq':
        sn, pz = get(rep, m, k, st, o, '_pz', 0, 'new biquad: getPoleZeros', 'bq/new', where(m, 'bq_pz')) or (None, None)
        if pz:
            rep.decide('a new biquad has no poles or zeros (besides 0)', 'bq/new', decide_eq(sn.gate, [(x, ZERO) for x in pz]), where(m, 'bq_pz'))
    for lab, v in variants:
        if v is None:
            s, _ = k.ok(st, '_ident', o)
        else:
            s, _ = k.ok(st, '_set', o, *v)
        c = k.norm(s, o)
        a0 = k.coef(s, o)[0]
        g = band(s.gate, finite(c, a0))
        if not feasible(g):
            continue
        s = s.fork(g)

        def go():
            for op, i in (('_pz', 0), ('_bps', None)):
                name = '%s %s: %s' % (p, lab, {'_pz': 'getPoleZeros', '_bps': 'BiquadPoleState'}[op])
                key = '%s/%s/%s' % (p, op, lab)
                loc = where(m, p + op)
                r = get(rep, m, k, s, o, op, i, name, key, loc, g)
                if r is None:
                    continue
                s2, pz = r
                rep.decide('%s: roots of the section' % name, key, decide_eq(band(g, s2.gate), pairs(pz, c), names=NAMES), loc)
                if op == '_bps':
                    rep.decide('%s: gain' % name, key + '/gain', decide_eq(band(g, s2.gate), [(pz[8], c[0])]), loc)
            npz = k.ok(s, '_npz', o)[1]
            if npz != 1:
                rep.violate('%s/npz' % p, '%s: getPoleZeros() of a biquad has %s entries' % (p, npz), where(m, p + '_npz'))
            s3, o2 = k.new(s)
            r = k.call(s3, '_round', o, o2)
            loc = where(m, p + '_round')
            w = find_point(band(g, r.throw_gate()), n=200) if r.throws else None
            if w is not None or r.st is None:
                rep.violate('%s/round/throw' % p, '%s %s: rebuilding from the poles, zeros and gain is rejected' % (p, lab), loc, w and pt_show(w))
                return
            rep.decide('%s %s: rebuilding from poles, zeros and gain' % (p, lab), '%s/round' % p, decide_eq(band(g, r.st.gate), list(zip(k.norm(r.st, o2), c)), names=['b0', 'b1', 'b2', 'a1', 'a2']), loc)
        rep.guard('%s %s' % (p, lab), go)


def casc(rep, m, p, fam, kind, n):
    """Cascade::getPoleZeros on unknown stage coefficients"""
    k = K(m, p)
    st, o = k.new()
    name = cname(fam, kind, n)
    for r in range(1, n + 1):
        s, _ = k.ok(st, '_nr', o, r, *vals(fam, kind))
        ns = k.ok(s, '_stages', o)[1]
        cells = set()
        for i in range(ns):
            q = k.ok(s, '_at', o, i)[1]
            cells |= {c for c in m.dcells(s, o) if q.off <= c < q.off + 48}
        s, _, _ = m.abstract(s, o, cells, 'c')
        g = s.gate
        cs = [k.norm(s, o, i) for i in range(ns)]
        for i in range(ns):
            g = band(g, finite(cs[i], k.coef(s, o, i)[0]))
        s = s.fork(g)
        for i in range(ns):
            nm = '%s requested order %d: Cascade::getPoleZeros()[%d]' % (name, r, i)
            key = '%s/bpz/%d' % (name, i)
            loc = where(m, p + '_bpz')

            def go():
                x = get(rep, m, k, s, o, '_bpz', i, nm, key, loc, g)
                if x:
                    rep.decide('%s: roots of the section' % nm, key, decide_eq(band(g, x[0].gate), pairs(x[1], cs[i]), names=NAMES), loc)
            rep.guard(nm, go)


def pole(rep, m, p, fam, kind, n, region):
    k = K(m, p)
    new, o = k.new()
    name = cname(fam, kind, n)
    used, _ = k.ok(new, '_n', o, *vals(fam, kind))
    ps = rsyms(fam, kind, region)
    loc = where(m, p + '_pz')
    if region[0] == regions(fam, kind)[0][0] and k.ok(new, '_npz', o)[1] != 0:
        rep.violate('%s/new' % name, '%s: poles reported before any setup' % name, loc)
    for lab, st, op, args, no in (('', new, '_n', ps, n), (' after another setup', used, '_nr', [max(1, n - 1)] + ps, max(1, n - 1))):
        if lab and n == 1:
            continue
        if lab and kind.startswith('Band') and not rep.thorough():
            continue

        def go():
            s, _ = k.ok(st, op, o, *args)
            ns = k.ok(s, '_stages', o)[1]
            npz = k.ok(s, '_npz', o)[1]
            if npz != ns:
                rep.violate('%s/count' % name, '%s%s: %s entries for %s sections' % (name, lab, npz, ns), loc)
                return
            for i in range(ns):
                c = k.norm(s, o, i)
                nm = '%s%s (%s): getPoleZeros()[%d]' % (name, lab, region[0] or 'all', i)
                x = get(rep, m, k, s, o, '_pz', i, nm, '%s/pz' % name, loc)
                if x:
                    v = decide_eq(band(s.gate, x[0].gate), pairs(x[1], c), names=NAMES)
                    rep.decide('%s: roots of the section' % nm, '%s/pz/%d' % (name, i), v, loc)
        rep.guard(name, go)
