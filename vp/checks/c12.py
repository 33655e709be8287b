"""C12 requested order honoured or rejected"""
from ..lib import *

RULE = ('For every designer class and template order N, with unknown design parameters: for each requested order r in 1..N the summary of setup/setupN(r, ...) has the '
        'stage count and coefficients of the class instantiated with r, and the outputs from a new delay line agree; for an unknown integer r outside 1..N every '
        'outcome is a throw of std::invalid_argument with all coefficients, the stage count and the delay line as before.')


def run(rep):
    orders = (1, 2, 3, 4) if not rep.thorough() else (1, 2, 3, 4, 5, 6)
    big = (8, 11) if not rep.thorough() else (8, 12, 16)
    cat = catalogue(orders, states=())
    bigc = [c for c in catalogue(big, states=(), kinds=('LowPass', 'BandPass', 'HighShelf'))] + catalogue((19, 36), states=(), kinds=('LowPass', 'HighPass'))
    m = machine(*cparts(cat), *cparts(bigc))
    rep.assume.append('double arithmetic is read as exact real arithmetic (rounding is not modelled)')
    tasks = []
    for fam in gen.FAMS:
        for kind in gen.KINDS:
            for n in orders:
                tasks.append(('%s %s %d' % (fam, kind, n), lambda fam=fam, kind=kind, n=n: lower(rep, m, 'p%s%s' % (fam, kind), fam, kind, n, orders)))
    for p, fam, kind, n, s in bigc:
        tasks.append((p, lambda fam=fam, kind=kind, n=n: lower(rep, m, 'p%s%s' % (fam, kind), fam, kind, n, orders + ((19,) if n == 36 else ()))))
    for p, fam, kind, n, s in cat + bigc:
        tasks.append((p, lambda p=p, fam=fam, kind=kind, n=n: reject(rep, m, p, fam, kind, n)))
    rep.par(m, tasks)
    return rep.finish(600)


def lower(rep, m, base, fam, kind, n, orders):
    """class with template order n asked for each smaller (or equal) order"""
    k = K(m, base + str(n))
    name = cname(fam, kind, n)
    fs = psym('fs')
    A, ps = [], []
    for x in gen.params(fam, kind):
        if x in ('fc', 'fw'):
            A.append(sym('F' + x, -INF, INF, nan=False))
            ps.append(div(A[-1], fs))
        else:
            A.append(psym(x))
            ps.append(A[-1])
    for r in orders:
        if r > n:
            continue
        kr = K(m, base + str(r))
        s0, oref = kr.new()
        ref = kr.call(s0, '_n', oref, *ps)
        s1, o = k.new()
        for op, args in (('_nr', [r] + ps), ('_sr', [r, fs] + A)):
            if op == '_sr' and r not in (1, n):
                continue
            res = k.call(s1, op, o, *args)
            loc = where(m, k.p + op)
            key = '%s/%s' % (name, op)
            w = None
            if res.st is None or ref.st is None:
                rep.violate(key, '%s: order %d is never accepted' % (name, r), loc)
                continue
            g = band(res.throw_gate(), bnot(ref.throw_gate()))
            w = find_point(g) if g is not False and feasible(g) else None
            if w is not None:
                rep.violate(key + '/reject', '%s: order %d is rejected' % (name, r), loc, pt_show(w))
            na, nb = k.ok(res.st, '_stages', o)[1], kr.ok(ref.st, '_stages', oref)[1]
            if na != nb:
                if not (isinstance(na, int) and isinstance(nb, int)):
                    raise Incomplete('stage count not determined')
                rep.violate(key, '%s: asked for order %d gives %s stages, the class of order %d has %s' % (name, r, na, r, nb), loc)
                continue
            g = band(res.st.gate, ref.st.gate)
            for i in range(na):
                rep.decide('%s at order %d equals the class of order %d (%s, stage %d)' % (name, r, r, op, i), key,
                           decide_eq(g, list(zip(k.coef(res.st, o, i), kr.coef(ref.st, oref, i)))), loc)
            if op == '_nr':
                xs = [real('x%d' % j) for j in range(3)]
                # outputs with concrete parameters keep the terms small
                v = vals(fam, kind)
                sa, _ = k.ok(s1, '_nr', o, r, *v)
                sb, _ = kr.ok(s0, '_n', oref, *v)
                _, ya = steps(k, sa, o, xs)
                _, yb = steps(kr, sb, oref, xs)
                rep.decide('%s at order %d: outputs' % (name, r), key + '/out', decide_eq(sa.gate, list(zip(ya, yb))), loc)


def reject(rep, m, p, fam, kind, n):
    k = K(m, p)
    name = cname(fam, kind, n)
    st, o = k.new()
    for lab in ('new', 'designed'):
        if lab == 'designed':
            st, _ = k.ok(st, '_n', o, *vals(fam, kind))
        before = k.ok(st, '_stages', o)[1]
        c0 = [c for i in range(before) for c in k.coef(st, o, i)]
        z0 = roots(k, st, o)
        ps = psyms(fam, kind)
        fs = psym('fs')
        for op, pre in (('_nr', []), ('_sr', [fs])):
            loc = where(m, p + op)
            hi = mki('sym', ('r>%d' % n,), n + 1, (1 << 31) - 1)
            lo = mki('sym', ('r<1',), -(1 << 31), 0)
            for r in (n + 1, n + 2, 0, -1, -2, -(1 << 31), (1 << 31) - 1, hi, lo):
                def one():
                    key = '%s/%s/reject' % (name, op)
                    if key in rep.seen:
                        return
                    res = k.call(st, op, o, r, *(pre + ps))
                    what = '%s: order %s' % (name, ('above %d' % n if r is hi else 'below 1') if not isinstance(r, int) else r)
                    if res.st is not None:
                        w = find_point(res.st.gate) if not isinstance(res.st.gate, bool) else {}
                        rep.violate(key, '%s is accepted' % what, loc, w and pt_show(w))
                        return
                    for t in res.throws:
                        if not m.e.ti_match(t.exc.type, '_ZTISt16invalid_argument'):
                            rep.violate(key + '/type', '%s throws %s' % (what, t.exc.type), t.exc.loc)
                        ns = k.ok(t, '_stages', o)[1]
                        if ns != before:
                            rep.violate(key + '/touch', '%s changes the stage count' % what, loc)
                            continue
                        if not changed(m.cells(t, o), m.cells(st, o)):
                            rep.ob('%s is rejected and nothing changes' % what, 'syntactic')
                            continue
                        z1 = roots(k, t, o)
                        if len(z1) != len(z0):
                            rep.violate(key + '/touch', '%s is rejected but getPoleZeros() then has %d entries (was %d)' % (what, len(z1) // 8, len(z0) // 8), loc)
                            continue
                        v = decide_eq(t.gate, list(zip([c for i in range(before) for c in k.coef(t, o, i)], c0)) + [(a, b) for a, b in zip(z1, z0) if isinstance(a, T) and isinstance(b, T)])
                        if v.ok:
                            v = same_future(m, k, t, o, st, o, t.gate)
                        if v.ok:
                            # and the next setup is not affected
                            a, b = k.call(t, '_n', o, *vals(fam, kind)), k.call(st, '_n', o, *vals(fam, kind))
                            if a.st is None or k.ok(a.st, '_stages', o)[1] != k.ok(b.st, '_stages', o)[1]:
                                v = Verdict(False, 'witness', None, 'the next setup differs')
                            else:
                                v = decide_eq(a.st.gate, [z for i in range(k.ok(b.st, '_stages', o)[1]) for z in zip(k.coef(a.st, o, i), k.coef(b.st, o, i))])
                        rep.decide('%s is rejected and nothing changes' % what, key + '/touch', v, loc)
                rep.guard('%s %s' % (name, op), one)
