"""C14 cutoff validation"""
from ..lib import *

RULE = ('Outcome conditions of setup/setupN of every designer class (new and already designed, unknown coefficients) with the frequency a symbol ranging over all values '
        'below zero, over all values from one half upwards, or infinite/NaN: the summary has only throwing outcomes, each std::invalid_argument, with every coefficient '
        'getter, the stage count, the reported poles and zeros and the future outputs as before.  With the frequency any value strictly inside the range and the other parameters any admissible '
        'value (region by region; 0 dB shelves separately) the condition for throwing is unsatisfiable.')


def run(rep):
    orders = (1, 2, 3) if not rep.thorough() else (1, 2, 3, 4, 6)
    cat = catalogue(orders, states=())
    m = machine(*cparts(cat))
    rep.assume.append('double arithmetic is read as exact real arithmetic (rounding is not modelled); a frequency of exactly zero is left open')
    tasks = []
    for p, fam, kind, n, s in cat:
        tasks.append((p, lambda p=p, fam=fam, kind=kind, n=n: bad(rep, m, p, fam, kind, n)))
        for r in regions(fam, kind, clamp=n < 3) + ([('any', {'gain': (6.0, 300.0), 'ripple': (0.001, 6.0), 'stop': (0.1, 6.0)})] if kind.startswith('Band') else []):
            if r[0] == 'any' and n == 3 and not rep.thorough():
                continue
            if kind == 'BandShelf' and fam != 'Butterworth' and n > 1 and r[0] not in ('boost/mid', 'cut/upper', 'small/low', 'any') and not rep.thorough():
                continue
            tasks.append(('%s %s' % (p, r[0]), lambda p=p, fam=fam, kind=kind, n=n, r=r: good(rep, m, p, fam, kind, n, r)))
    rep.par(m, tasks)
    return rep.finish(2000)


def bad(rep, m, p, fam, kind, n):
    k = K(m, p)
    name = cname(fam, kind, n)
    st, o = k.new()
    hi = sym('fc>=.5', 0.5, INF, lopen=False, hopen=True, nan=False)
    lo = sym('fc<0', -INF, 0.0, lopen=True, hopen=True, nan=False)
    F = real('F')
    fs = psym('fs')
    ps = psyms(fam, kind)[1:]
    for lab in ('new', 'designed'):
        if lab == 'designed':
            st, _ = k.ok(st, '_n', o, *vals(fam, kind))
        before = k.ok(st, '_stages', o)[1]
        if lab == 'designed':
            cc = set()
            for i in range(before):
                q = k.ok(st, '_at', o, i)[1]
                if isinstance(q, P) and q.obj == o.obj:
                    cc |= {c for c in m.dcells(st, o) if q.off <= c < q.off + 48}
            st, _, _ = m.abstract(st, o, cc | {q for q in changing(k, st, o) if isinstance(m.cells(st, o).get(q), T)}, 'a')
        c0 = [c for i in range(before) for c in k.coef(st, o, i)]
        z0 = roots(k, st, o)
        for v, vl in ((hi, 'at or above one half'), (lo, 'below zero'), (NAN, 'NaN'), (PINF, 'infinite'), (NINF, 'minus infinity'), (C(Fr(1, 2)), 'one half'), (C(-1), 'minus one')):
            for op, args in (('_n', [v] + ps), ('_nr', [1, v] + ps), ('_s', [ONE, v] + ps), ('_sr', [n, C(2), (mul(C(2), v))] + ps), ('_s', [fs, F] + ps)):
                if op == '_s' and args[0] is fs and v is not hi:
                    continue

                def one():
                    key = '%s/%s' % (name, op)
                    loc = where(m, p + op)
                    r = k.call(st, op, o, *args)
                    what = '%s (%s): %s with a frequency %s' % (name, lab, op[1:], vl)
                    if args[0] is fs:
                        # the quotient decides
                        q = div(F, fs)
                        out = band(r.st.gate if r.st is not None else False, bor(eng.c_lt(q, ZERO), bnot(eng.c_lt(q, C(Fr(1, 2))))))
                        w = find_point(out) if out is not False and feasible(out) else None
                        if w is not None:
                            rep.violate(key + '/accept', '%s is accepted' % what, loc, pt_show(w))
                        else:
                            rep.ob('%s: ratio outside the range is rejected' % name, 'excluded')
                        return
                    if r.st is not None:
                        w = find_point(r.st.gate) if not isinstance(r.st.gate, bool) else {}
                        if w is None and not isinstance(r.st.gate, bool):
                            rep.undec(what, 'accepting outcome not excluded')
                        else:
                            rep.violate(key + '/accept', '%s is accepted' % what, loc, w and pt_show(w))
                        return
                    for t in r.throws:
                        if not m.e.ti_match(t.exc.type, '_ZTISt16invalid_argument'):
                            rep.violate(key + '/type', '%s throws %s' % (what, t.exc.type), t.exc.loc)
                        ns = k.ok(t, '_stages', o)[1]
                        if ns != before:
                            rep.violate(key + '/touch', '%s is rejected but the stage count becomes %s (was %s)' % (what, ns, before), loc)
                            continue
                        z1 = roots(k, t, o)
                        if len(z1) != len(z0):
                            rep.violate(key + '/touch', '%s is rejected but getPoleZeros() then has %d entries (was %d)' % (what, len(z1) // 8, len(z0) // 8), loc)
                            continue
                        v1 = decide_eq(t.gate, list(zip([c for i in range(before) for c in k.coef(t, o, i)], c0)) + [(a, b) for a, b in zip(z1, z0) if isinstance(a, T) and isinstance(b, T)])
                        if v1.ok:
                            v1 = same_future(m, k, t, o, st, o, t.gate)
                        rep.decide('%s is rejected and the filter keeps its coefficients, stages and outputs' % what, key + '/touch', v1, loc)
                rep.guard('%s %s' % (name, op), one)


def good(rep, m, p, fam, kind, n, region):
    k = K(m, p)
    name = cname(fam, kind, n)
    st, o = k.new()
    fs = psym('fs')
    ps = rsyms(fam, kind, region)
    sets = [(ps, region[0] or 'all')]
    if region[0] == regions(fam, kind)[0][0]:
        if 'gain' in gen.params(fam, kind):
            i = gen.params(fam, kind).index('gain')
            sets.append((ps[:i] + [ZERO] + ps[i + 1:], '0 dB'))
        # near the ends of the range
        for f in (Fr(1, 10**6), Fr(4999999, 10**7), Fr(1, 4)):
            v = vals(fam, kind)
            sets.append(([C(f)] + v[1:], 'fc=%s' % f))
    for ps, lab in sets:
        F = [mul(x, fs) if q in ('fc', 'fw') else x for x, q in zip(ps, gen.params(fam, kind))]
        for op, args in (('_n', ps), ('_nr', [max(1, n - 1)] + ps), ('_s', [fs] + F))[:1 if lab == 'any' else 3]:
            def one():
                r = k.call(st, op, o, *args)
                g = r.throw_gate()
                what = '%s: %s with a frequency inside the range (%s)' % (name, op[1:], lab)
                w = find_point(g, n=400 if rep.thorough() else 120) if not isinstance(g, bool) else ({} if g else None)
                if w is None and op == '_n':
                    w = find_coincident(g)
                if w is not None:
                    rep.violate('%s/%s/reject' % (name, op), '%s is rejected' % what, where(m, p + op), pt_show(w))
                else:
                    rep.ob('%s is accepted' % what, 'excluded' if g is False or not feasible(g) else 'no witness')
            rep.guard('%s %s' % (name, op), one)
