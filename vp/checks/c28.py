"""C28 explicit poles and zeros"""
from ..lib import *

RULE = ('Summaries of setOnePole, setTwoPole and setPoleZeroPair for unknown complex arguments in every relation the two roots can have (both real, conjugate, equal but not conjugate, '
        'real part or imaginary part off, one real and one complex, unrelated), for poles and zeros independently: valid combinations never reach the throw and give exactly the polynomial '
        'with the given roots and leading coefficient 1 (normalised by a0), every other combination has only throwing outcomes with std::invalid_argument and unchanged coefficients. setIdentity '
        'and applyScale on unknown coefficients: (1,0,0,1,0,0) and the numerator multiplied, the denominator unchanged; an identity section passes every sample.')


def run(rep):
    objs = [('bq', gen.biquad('bq')), ('op', gen.onepole('op')), ('tp', gen.twopole('tp')), ('rLowPass', gen.rbj('rLowPass', 'LowPass'))]
    m = machine(*[g for _, g in objs], *[gen.state('s' + s, s) for s in gen.STATES])
    rep.assume.append('double arithmetic is read as exact real arithmetic (rounding is not modelled)')
    rep.assume.append('the single-pole form of a pair (second pole and zero 0) means a section with roots {p, 0} and {z, 0}')
    tasks = []
    for p, _ in objs:
        for pc in CASES('p'):
            tasks.append(('%s %s' % (p, pc[0]), lambda p=p, pc=pc: two(rep, m, p, pc)))
        tasks.append((p, lambda p=p: single(rep, m, p)))
    for s in gen.STATES:
        tasks.append((s, lambda s=s: ident(rep, m, s)))
    rep.par(m, tasks)
    return rep.finish(500)


def pos(n):
    return sym(n, 0.0, INF, lopen=True, nan=False)


def CASES(t):
    """(name, valid, r1, i1, r2, i2)"""
    r1, r2, i1, i2 = real(t + 'r1'), real(t + 'r2'), real(t + 'i1'), real(t + 'i2')
    d, u, w = pos(t + 'd'), pos(t + 'u'), pos(t + 'w')
    return [('real pair', True, r1, ZERO, r2, ZERO), ('conjugate pair', True, r1, i1, r1, neg(i1)), ('first zero', True, ZERO, ZERO, r2, ZERO), ('second zero', True, r1, ZERO, ZERO, ZERO),
            ('double', True, r1, ZERO, r1, ZERO), ('imaginary pair', True, ZERO, i1, ZERO, neg(i1)),
            ('equal, not conjugate', False, r1, u, r1, u), ('equal, not conjugate (-)', False, r1, neg(u), r1, neg(u)), ('real parts differ', False, r1, u, add(r1, d), neg(u)),
            ('real parts differ (-)', False, r1, neg(u), sub(r1, d), u), ('imaginary parts differ', False, r1, u, r1, neg(add(u, d))), ('imaginary parts differ (-)', False, r1, neg(add(u, d)), r1, u),
            ('first real', False, r1, ZERO, r2, u), ('first real (-)', False, r1, ZERO, r1, neg(u)), ('second real', False, r1, u, r2, ZERO), ('second real (-)', False, r1, neg(u), r1, ZERO),
            ('first complex, second 0', False, r1, u, ZERO, ZERO), ('negated', False, d, u, neg(d), neg(u)), ('reciprocal', False, add(d, ONE), u, ZERO, neg(u))]


def quad(c):
    """1 + c1 z^-1 + c2 z^-2 with the two roots"""
    _, _, r1, i1, r2, i2 = c
    if i1 is ZERO:
        return [ONE, neg(add(r1, r2)), mul(r1, r2)]
    return [ONE, mul(C(-2), r1), add(mul(r1, r1), mul(i1, i1))]


def start(m, k, used):
    st, o = k.new()
    if used:
        st, _ = k.ok(st, '_set', o, *[C(x) for x in (2, 1, 3, 1, 4, 5)])
        st, _, _ = m.abstract(st, o, list(m.dcells(st, o)), 'old')
    return st, o


def verdict(rep, m, k, name, key, st, o, op, args, valid, pair):
    loc = where(m, k.p + op)
    old = [m.cells(st, o)[q] for q in sorted(m.dcells(st, o))]
    r = k.call(st, op, o, *args)
    if valid:
        w = find_point(r.throw_gate(), n=200) if r.throws else None
        if w is not None or r.st is None:
            rep.violate(key + '/reject', '%s: a valid argument is rejected' % name, loc, w and pt_show(w))
            return
        b0, b1, b2, a1, a2 = k.norm(r.st, o)
        a0 = k.coef(r.st, o)[0]
        B, A = pair
        rep.decide('%s: the section has exactly the given roots' % name, key, decide_eq(r.st.gate, list(zip([b0, b1, b2, a1, a2], B + A[1:])), names=['b0', 'b1', 'b2', 'a1', 'a2']), loc)
        return
    if r.st is not None:
        w = find_point(r.st.gate, n=200)
        if w is not None:
            rep.violate(key + '/accept', '%s: an invalid combination is accepted' % name, loc, pt_show(w))
        else:
            rep.undec(name, 'acceptance not excluded')
        return
    for t in r.throws:
        if not m.e.ti_match(t.exc.type, '_ZTISt16invalid_argument'):
            rep.violate(key + '/type', '%s throws %s' % (name, t.exc.type), t.exc.loc)
            continue
        c = [m.cells(t, o)[q] for q in sorted(m.dcells(t, o))]
        rep.decide('%s: rejected, section unchanged' % name, key + '/touch', decide_eq(t.gate, list(zip(c, old))), loc)


def two(rep, m, p, pc):
    k = K(m, p)
    for used in (False, True):
        st, o = start(m, k, used)
        for zc in CASES('z'):
            for op in ('_two', '_pzp'):
                name = '%s::%s(poles: %s, zeros: %s)%s' % (p, op[1:], pc[0], zc[0], ' on a used section' if used else '')
                args = [pc[2], pc[3], zc[2], zc[3], pc[4], pc[5], zc[4], zc[5]]
                rep.guard(name, lambda: verdict(rep, m, k, name, '%s/%s/%s/%s' % (p, op, pc[0], zc[0]), st, o, op, args, pc[1] and zc[1], (quad(zc), quad(pc))))


def single(rep, m, p):
    k = K(m, p)
    u, v = pos('u'), pos('v')
    pr, zr = real('pr'), real('zr')
    ims = [('real', ZERO), ('complex', u), ('complex (-)', neg(v))]
    for used in (False, True):
        st, o = start(m, k, used)
        for pn, pi in ims:
            for zn, zi in ims:
                name = '%s::setOnePole(%s pole, %s zero)' % (p, pn, zn)
                rep.guard(name, lambda: verdict(rep, m, k, name, '%s/one/%s/%s' % (p, pn, zn), st, o, '_one', [pr, pi, zr, zi], pi is ZERO and zi is ZERO,
                                                ([ONE, neg(zr), ZERO], [ONE, neg(pr), ZERO])))
        name = '%s::setPoleZeroPair(single pole)' % p
        rep.guard(name, lambda: verdict(rep, m, k, name, '%s/pz1' % p, st, o, '_pz1', [pr, zr], True, ([ONE, neg(zr), ZERO], [ONE, neg(pr), ZERO])))

        def idn():
            r = k.call(st, '_ident', o)
            if r.throws and find_point(r.throw_gate()) is not None:
                rep.violate('%s/ident/throw' % p, '%s::setIdentity throws' % p, where(m, p + '_ident'))
            rep.decide('%s::setIdentity gives the identity' % p, '%s/ident' % p, decide_eq(r.st.gate, list(zip(k.coef(r.st, o), [ONE, ZERO, ZERO, ONE, ZERO, ZERO]))), where(m, p + '_ident'))
        rep.guard('%s setIdentity' % p, idn)

        def sc():
            g = real('g')
            c0 = k.coef(st, o)
            n0 = k.norm(st, o)
            r = k.call(st, '_scale', o, g)
            if r.st is None or (r.throws and find_point(r.throw_gate()) is not None):
                rep.violate('%s/scale/throw' % p, '%s::applyScale throws for a number' % p, where(m, p + '_scale'))
                return
            n1 = k.norm(r.st, o)
            nz = band(r.st.gate, bnot(eng.c_eq(c0[0], ZERO)))
            rep.decide('%s::applyScale multiplies the numerator only' % p, '%s/scale' % p,
                       decide_eq(nz, list(zip(n1, [mul(g, x) for x in n0[:3]] + n0[3:])), names=['b0', 'b1', 'b2', 'a1', 'a2']), where(m, p + '_scale'))
        rep.guard('%s applyScale' % p, sc)


def ident(rep, m, s):
    kb, ks = K(m, 'bq'), K(m, 's' + s)
    for used in (False, True):
        st, o = start(m, kb, used)
        st, _ = kb.ok(st, '_ident', o)
        st = st.fork(st.gate)
        d = m.alloc(st, ks.size, 'state')
        st, _ = ks.ok(st, '_new', d)
        st2, ys, xs = st, [], [real('x%d' % i) for i in range(5)]
        for x in xs:
            st2, y = ks.ok(st2, '_f', d, o, x)
            ys.append(y)
        rep.decide('identity section through %s passes every sample' % s, 'identity/%s' % s, decide_eq(st2.gate, list(zip(ys, xs))), where(m, 's' + s + '_f'))
