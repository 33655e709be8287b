"""C09 response() is the transfer function of the coefficients in use"""
from ..lib import *

RULE = ('Abstract summary of response(f) for an unknown frequency in [0, 0.5] and unknown stored coefficients, for biquads and for cascades with every stage count '
        'up to the template maximum (requested orders below the template order included): real and imaginary part must equal the product over the active '
        'sections (as the getters report them) of the section polynomials at z = exp(2 pi i f); identities are decided after normalising sin/cos of multiples.')


def run(rep):
    model.COINCIDE[0] = True
    no = (1, 2, 4, 6, 20) if not rep.thorough() else tuple(range(1, 13)) + (20, 40)
    cat = [('b%d' % n, 'Butterworth', 'LowPass', n, None) for n in no] + catalogue((3,), states=())
    m = machine(*cparts(cat), *[gen.rbj('r' + k, k) for k in gen.RBJK], gen.biquad('bq'), gen.onepole('op'), gen.twopole('tp'))
    rep.assume.append('double arithmetic is read as exact real arithmetic (rounding is not modelled)')
    tasks = []
    for p, fam, kind, n, s in cat:
        tasks.append((p, lambda p=p, fam=fam, kind=kind, n=n, s=s: casc(rep, m, p, fam, kind, n)))
    for p in ['bq', 'op', 'tp'] + ['r' + k for k in gen.RBJK]:
        tasks.append((p, lambda p=p: biq(rep, m, p)))
    rep.par(m, tasks)
    return rep.finish(45)


F = None


def freq():
    return sym('f', 0.0, 0.5, nan=False)


def spec(cs, f):
    """product of the sections at e^{i 2 pi f}: (re, im)"""
    w = mul(mul(C(2), PI), f)
    c, s = f1('cos', w), f1('sin', w)
    z1 = (c, neg(s))
    z2 = cmul(c, neg(s), c, neg(s))
    nr, ni, dr, di = ONE, ZERO, ONE, ZERO
    for b0, b1, b2, a1, a2 in cs:
        n = (add(b0, add(mul(b1, z1[0]), mul(b2, z2[0]))), add(mul(b1, z1[1]), mul(b2, z2[1])))
        d = (add(ONE, add(mul(a1, z1[0]), mul(a2, z2[0]))), add(mul(a1, z1[1]), mul(a2, z2[1])))
        nr, ni = cmul(nr, ni, *n)
        dr, di = cmul(dr, di, *d)
    return (nr, ni), (dr, di)


def compare(rep, name, gate, got, cs, f, loc):
    (nr, ni), (dr, di) = spec(cs, f)
    gr, gi = got
    # got * denominator == numerator
    pr, pi_ = cmul(gr, gi, dr, di)
    rep.decide('%s: response equals the transfer function of its %d sections' % (name, len(cs)), name, decide_eq(gate, [(pr, nr), (pi_, ni)], names=['real part', 'imaginary part']), loc)


def call(rep, k, st, o, f, name):
    m = k.m
    st = st.fork(st.gate)
    b = m.alloc(st, 16, 'out')
    r = k.call(st, '_resp', o, f, b)
    loc = where(m, k.p + '_resp')
    w = find_point(r.throw_gate()) if r.throws else None
    if r.st is None or w is not None:
        rep.violate(name + '/throw', '%s: response() throws for a valid frequency' % name, loc, w and pt_show(w))
        return None, None
    return r.st, [r.st.mem[b.obj].cells[8 * i][1] for i in range(2)]


def biq(rep, m, p):
    k = K(m, p)
    st, o = k.new()
    f = freq()
    s2, got = call(rep, k, st, o, f, p + '/identity')
    if got and p in ('bq', 'op', 'tp'):
        rep.decide('%s: a new biquad responds with 1' % p, p + '/new', decide_eq(s2.gate, list(zip(got, (ONE, ZERO)))), where(m, p + '_resp'))
    for how in ('cells', 'ident'):
        if how == 'cells':
            s, _ = k.ok(st, '_set', o, *[real('q%d' % i) for i in range(6)])
        else:
            s, _ = k.ok(st, '_ident', o)
        s2, got = call(rep, k, s, o, f, p)
        if got:
            a0 = k.coef(s, o)[0]
            compare(rep, p, band(s2.gate, nonzero_a0(a0)), got, [k.norm(s, o)] if how == 'cells' else [[ONE, ZERO, ZERO, ZERO, ZERO]], f, where(m, p + '_resp'))


def casc(rep, m, p, fam, kind, n):
    k = K(m, p)
    st, o = k.new()
    f = freq()
    loc = where(m, p + '_resp')
    s2, got = call(rep, k, st, o, f, p + '/empty')
    if got:
        rep.decide('%s: no stages respond with 1' % p, p + '/empty', decide_eq(s2.gate, list(zip(got, (ONE, ZERO)))), loc)
    for req in range(1, n + 1):
        s, _ = k.ok(st, '_nr', o, req, *vals(fam, kind))
        ns = k.ok(s, '_stages', o)[1]
        offs = set()
        nz = True
        for i in range(ns):
            q = k.ok(s, '_at', o, i)[1]
            if not isinstance(q, P) or not isinstance(q.off, int):
                raise Incomplete('stage address not determined')
            offs |= {c for c in m.dcells(s, o) if q.obj == o.obj and q.off <= c < q.off + 48}
        s, _, _ = m.abstract(s, o, offs, 'c')
        cs = []
        for i in range(ns):
            c = k.coef(s, o, i)
            nz = band(nz, nonzero_a0(c[0]))
            cs.append(k.norm(s, o, i))
        s2, got = call(rep, k, s, o, f, p)
        if got:
            compare(rep, '%s at order %d' % (cname(fam, kind, n), req), band(s2.gate, nz), got, cs, f, loc)
