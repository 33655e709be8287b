"""C08 imported second-order sections"""
from ..lib import *

RULE = ('Abstract summary of SOSCascade construction/setup and Biquad::setCoefficients with every table entry an unknown (a0 != 0): the getters of section i must '
        'be row i as rational functions after normalisation by a0 (the row itself or divided by its a0 when read back), for every section count and delay-line structure; the outputs from a new delay line must be the '
        'chained difference equations of the rows; a second table must replace the first entirely; no admissible table is rejected.')


def run(rep):
    model.COINCIDE[0] = True
    ns = (1, 2, 3, 4, 6) if not rep.thorough() else tuple(range(1, 13))
    S = [('c%d%d' % (n, i), n, s) for n in ns + (18, 40) for i, s in enumerate(gen.STATES)]
    m = machine(*[gen.sos(p, n, s) for p, n, s in S], gen.biquad('bq'), *[gen.rbj('r' + k, k) for k in ('LowPass', 'AllPass')], gen.onepole('op'), gen.twopole('tp'))
    rep.assume.append('double arithmetic is read as exact real arithmetic (rounding is not modelled)')
    tasks = [(p, lambda p=p, n=n, s=s: sos(rep, m, p, n, s)) for p, n, s in S]
    tasks += [(p, lambda p=p: biq(rep, m, p)) for p in ('bq', 'rLowPass', 'rAllPass', 'op', 'tp')]
    rep.par(m, tasks)
    return rep.finish(100)


def table(n, tag):
    return [real('%s%d_%d' % (tag, i, j)) for i in range(n) for j in range(6)]


def norm(row):
    b0, b1, b2, a0, a1, a2 = row
    return [div(x, a0) for x in (b0, b1, b2, a1, a2)]


def back(g, got, a0):
    """the common factor of the getters is the row's a0, or 1"""
    return decide_eq(g, [(mul(sub(got, a0), sub(got, ONE)), ZERO)], names=['(getA0 - a0)(getA0 - 1)'])


NAMES = ['b0', 'b1', 'b2', 'a1', 'a2']


def sos(rep, m, p, n, s):
    k = K(m, p)
    name = 'SOSCascade<%d,%s>' % (n, s)
    t1, t2 = table(n, 's'), table(n, 't')
    nz = True
    for i in range(n):
        nz = band(nz, band(nonzero_a0(t1[6 * i + 3]), nonzero_a0(t2[6 * i + 3])))
    for how in ('_sos', '_newsos', 'twice'):
        loc = where(m, p + ('_newsos' if how == '_newsos' else '_sos'))
        if how == '_newsos':
            st, arr = k.darray(m.state(), t1)
            st = st.fork(st.gate)
            o = m.alloc(st, k.size, p)
            r = k.call(st, '_newsos', o, arr)
        else:
            st, o = k.new()
            if how == 'twice':
                st, arr = k.darray(st, t2)
                st, _ = k.ok(st, '_sos', o, arr)
            st, arr = k.darray(st, t1)
            r = k.call(st, '_sos', o, arr)
        w = find_point(band(r.throw_gate(), nz)) if r.throws else None
        if r.st is None or w is not None:
            rep.violate('%s/%s/throw' % (name, how), '%s: %s rejects a table of finite coefficients' % (name, how), loc, w and pt_show(w))
            continue
        g = band(r.st.gate, nz)
        for i in range(n):
            rep.decide('%s: %s, section %d has the transfer function of row %d' % (name, how, i, i), '%s/%s' % (name, how),
                       decide_eq(g, list(zip(k.norm(r.st, o, i, '_store'), norm(t1[6 * i:6 * i + 6]))), names=NAMES), loc)
            a0 = k.coef(r.st, o, i, '_store')[0]
            rep.decide('%s: %s, section %d reads back as row %d or as that row divided by its a0' % (name, how, i, i), '%s/%s/back' % (name, how), back(g, a0, t1[6 * i + 3]), loc)
        mx = k.ok(r.st, '_smax', o)[1]
        if mx != n:
            rep.violate('%s/count' % name, '%s: reports %s sections' % (name, mx), loc)
        xs = [real('x%d' % j) for j in range(2 * min(n, 3) + 2)] if n <= 4 else [real('x0'), real('x1'), real('x2')]
        _, ys = steps(k, r.st, o, xs)
        want = chain([norm(t1[6 * i:6 * i + 6]) for i in range(n)], xs)
        rep.decide('%s: %s, outputs are those of the rows in series' % (name, how), '%s/%s/out' % (name, how), decide_eq(g, list(zip(ys, want))), loc)


def biq(rep, m, p):
    k = K(m, p)
    st, o = k.new()
    for lab in ('new', 'reused'):
        q = [real('q%d' % i) for i in range(6)]          # a0 a1 a2 b0 b1 b2
        r = k.call(st, '_set', o, *q)
        nz = nonzero_a0(q[0])
        loc = where(m, p + '_set')
        w = find_point(band(r.throw_gate(), nz)) if r.throws else None
        if r.st is None or w is not None:
            rep.violate('%s/throw' % p, 'setCoefficients rejects finite coefficients', loc, w and pt_show(w))
            return
        rep.decide('%s setCoefficients normalises by a0 (%s)' % (p, lab), p + '/set', decide_eq(band(r.st.gate, nz), list(zip(k.norm(r.st, o), norm([q[3], q[4], q[5], q[0], q[1], q[2]]))), names=NAMES), loc)
        rep.decide('%s setCoefficients: the getters give the coefficients, as set or divided by a0 (%s)' % (p, lab), p + '/back', back(band(r.st.gate, nz), k.coef(r.st, o)[0], q[0]), loc)
        st, _ = k.ok(st, '_set', o, *[real('u%d' % i) for i in range(6)])
