"""C30 a layout becomes exactly its cascade"""
import itertools
from ..lib import *

RULE = ('setLayout of a bare cascade and of designer classes, for every sequence of section kinds (conjugate pair, real pair, single pole) up to three sections with unknown poles, zeros, '
        'normalisation frequency and gain, on new and used storage: each section must have the polynomial with the given roots (all but the first numerator with leading coefficient 1), the '
        'remaining sections of the storage must be the identity, |H|^2 at the normalisation frequency must equal the gain squared (algebraic normalisation); a layout with more sections than '
        'the storage has only throwing outcomes and changes no cell. applyScale(g) must multiply response() at an unknown frequency by g.')

MODES = {0: 'conjugate pair', 1: 'real pair', 2: 'single pole'}


def run(rep):
    model.COINCIDE[0] = True
    objs = [('b%d' % n, 'Butterworth', 'LowPass', n) for n in (1, 4)] + [('c2', 'ChebyshevII', 'BandStop', 2)]
    m = machine(gen.rawcascade('ca'), gen.biquad('bq'), *[gen.pole(*x) for x in objs])
    rep.assume.append('double arithmetic is read as exact real arithmetic (rounding is not modelled)')
    top = 3 if not rep.thorough() else 4
    seqs = [[]]
    for n in range(1, top + 1):
        seqs += [list(x) + [y] for x in itertools.product((0, 1), repeat=n - 1) for y in (0, 1, 2)]
    tasks = []
    for size in (1, 2, 3, 5, 20):
        for used in (False, True):
            for sq in seqs if size < 20 else [[], [0], [1, 2], [0] * 16 + [2], [1, 0] * 10]:
                tasks.append(('ca %d %s' % (size, sq), lambda size=size, used=used, sq=sq: bare(rep, m, size, used, sq)))
    for p, fam, kind, n in objs:
        for sq in seqs:
            tasks.append(('%s %s' % (p, sq), lambda p=p, fam=fam, kind=kind, n=n, sq=sq: designer(rep, m, p, fam, kind, n, sq)))
    rep.par(m, tasks)
    return rep.finish(300)


def roots(i, mode, what):
    """(two doubles handed over, coefficients of z^-1 and z^-2)"""
    lo, hi = (0.05, 0.95) if what == 'p' else (0.1, 3.0)
    a = sym('%s%da' % (what, i), lo, hi, nan=False)
    b = sym('%s%db' % (what, i), lo, hi, nan=False)
    if what == 'z':
        a = neg(a)
    if mode == 0:
        return (a, b), (mul(C(-2), a), add(mul(a, a), mul(b, b)))
    if mode == 1:
        return (a, b), (neg(add(a, b)), mul(a, b))
    return (a, ZERO), (neg(a), ZERO)


def layout(sq):
    v, spec = [], []
    for i, mode in enumerate(sq):
        (pa, pb), pc = roots(i, mode, 'p')
        (za, zb), zc = roots(i, mode, 'z')
        v += [pa, pb, za, zb]
        spec.append((pc, zc))
    return v, spec, sum(mode << (2 * i) for i, mode in enumerate(sq))


def apply(rep, m, k, st, o, size, sq, name, key, secs, watch):
    """secs(state) -> coefficients of every section in the storage"""
    v, spec, modes = layout(sq)
    w = sym('w', 0.0, 3.14, nan=False)
    g = sym('g', 0.01, 100.0, nan=False)
    st, b = k.darray(st, v or [ZERO])
    before = watch(st)
    loc = where(m, k.p + '_lay', 'setLayout')
    r = k.call(st, '_lay2', o, b, len(sq), modes, w, g)
    if len(sq) > size:
        if r.st is not None and (find_point(r.st.gate) is not None):
            rep.violate(key + '/accept', '%s: %d sections are accepted with room for %d' % (name, len(sq), size), loc)
            return
        for t in r.throws:
            ch = [q for q in changed(before, watch(t)) if not (isinstance(before.get(q), P) and isinstance(watch(t).get(q), P))]
            if not m.e.ti_match(t.exc.type, '_ZTISt16invalid_argument'):
                rep.violate(key + '/type', '%s throws %s' % (name, t.exc.type), t.exc.loc)
            if ch:
                rep.violate(key + '/touch', '%s: a rejected layout changes the cascade' % name, loc, sorted(map(str, ch))[:5])
            else:
                rep.ob('%s: a layout of %d sections is rejected and changes nothing' % (name, len(sq)), 'syntactic')
        return
    x = find_point(r.throw_gate()) if r.throws else None
    if x is not None or r.st is None:
        rep.violate(key + '/reject', '%s: a layout that fits is rejected' % name, loc, x and pt_show(x))
        return
    s = r.st
    ns = k.ok(s, '_stages', o)[1]
    if ns != len(sq):
        rep.violate(key + '/stages', '%s: %s sections reported' % (name, ns), loc)
        return
    cs = secs(s)
    for i, c in enumerate(cs):
        a0, a1, a2, b0, b1, b2 = c
        if i < len(sq):
            (p1, p2), (z1, z2) = spec[i]
            pr = [(a1, mul(a0, p1)), (a2, mul(a0, p2)), (b1, mul(b0, z1)), (b2, mul(b0, z2))] + ([(b0, a0)] if i else [])
            what = 'section %d has the given roots' % i
        else:
            pr = [(a1, ZERO), (a2, ZERO), (b0, a0), (b1, ZERO), (b2, ZERO)]
            what = 'spare section %d is the identity' % i
        rep.decide('%s: %s' % (name, what), key + '/roots', decide_eq(s.gate, pr), loc)
    if not sq:
        return
    # |H| at the normalisation frequency
    s2 = s.fork(s.gate)
    out = m.alloc(s2, 16, 'out')
    cw, sw = f1('cos', w), f1('sin', w)
    N = D = ONE
    for a0, a1, a2, b0, b1, b2 in cs[:len(sq)]:
        N, D = mul(N, sq_mod(b0, b1, b2, cw, sw)), mul(D, sq_mod(a0, a1, a2, cw, sw))
    rep.decide('%s: the gain at the normalisation frequency' % name, key + '/gain', decide_eq(s.gate, [(N, mul(mul(g, g), D))]), loc)
    # applyScale
    h = sym('h', -8.0, 8.0, nan=False)
    f = sym('f', 0.0, 0.5, nan=False)
    s3, _ = k.ok(s2, '_gain', o, h)
    sa, _ = k.ok(s2, '_resp', o, f, out)
    sb, _ = k.ok(s3, '_resp', o, f, out)
    A = [sa.mem[out.obj].cells[q][1] for q in (0, 8)]
    B = [sb.mem[out.obj].cells[q][1] for q in (0, 8)]
    rep.decide('%s: applyScale multiplies the response' % name, key + '/scale', decide_eq(band(sa.gate, sb.gate), [(B[0], mul(h, A[0])), (B[1], mul(h, A[1]))]), where(m, k.p + '_gain'))


def sq_mod(c0, c1, c2, cw, sw):
    """|c0 + c1 e^-jw + c2 e^-2jw|^2"""
    c2w, s2w = sub(mul(C(2), mul(cw, cw)), ONE), mul(C(2), mul(sw, cw))
    re, im = add(c0, add(mul(c1, cw), mul(c2, c2w))), add(mul(c1, sw), mul(c2, s2w))
    return add(mul(re, re), mul(im, im))


def bare(rep, m, size, used, sq):
    k, kb = K(m, 'ca'), K(m, 'bq')
    st, o = k.new()
    st = st.fork(st.gate)
    a = m.alloc(st, 48 * 24, 'sections')
    st, _ = k.ok(st, '_biq24', a)
    if used:
        st, _, _ = m.abstract(st, a, list(m.dcells(st, a)), 'old')
    st, _ = k.ok(st, '_arr', o, size, a)
    if used:
        v, _, modes = layout([0] * size)
        st, b = k.darray(st, [C(Fr(1, 2)), C(Fr(1, 4)), C(-1), C(Fr(1, 8))] * size)
        st, _ = k.ok(st, '_lay2', o, b, size, 0, ZERO, ONE)
        st, _, _ = m.abstract(st, a, list(m.dcells(st, a)), 'old')

    def secs(s):
        r = []
        for i in range(size):
            s2 = s.fork(s.gate)
            b = m.alloc(s2, 48, 'out')
            s2, _ = k.ok(s2, '_sec', o, a, i, b)
            r.append([s2.mem[b.obj].cells[8 * j][1] for j in range(6)])
        return r

    def watch(s):
        r = {('o', q): v for q, v in m.cells(s, o).items()}
        r.update({('a', q): v for q, v in m.cells(s, a).items()})
        return r
    name = '%s cascade with room for %d, layout [%s]' % ('used' if used else 'new', size, ', '.join(MODES[x] for x in sq))
    old = secs(st)
    apply(rep, m, k, st, o, size, sq, name, 'Cascade', lambda s: secs(s)[:size], watch)


def designer(rep, m, p, fam, kind, n, sq):
    k = K(m, p)
    for used in (False, True):
        st, o = k.new()
        if used:
            st, _ = k.ok(st, '_n', o, *vals(fam, kind))
        size = k.ok(st, '_smax', o)[1]

        def secs(s):
            return [k.coef(s, o, i, '_store') for i in range(size)]
        name = '%s %s, layout [%s]' % ('used' if used else 'new', cname(fam, kind, n), ', '.join(MODES[x] for x in sq))
        rep.guard(name, apply, rep, m, k, st, o, size, sq, name, cname(fam, kind, n), secs, lambda s: m.cells(s, o))
