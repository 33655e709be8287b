"""C03 reset restores the initial delay line and nothing else"""
from ..lib import *

RULE = ('For every filter class and delay-line type: from arbitrary delay contents (every cell a filter call can change replaced by an unknown, every '
        'reachable control configuration), the value-flow summary of reset() is compared with the freshly constructed delay line under the same '
        'coefficients: equal cells (all continuations) or equal next outputs, and the coefficients reported by the getters must be unchanged. '
        'A fresh or reset object must answer zero input with zero.')


def run(rep):
    model.COINCIDE[0] = True
    cat = catalogue((3,) if not rep.thorough() else (1, 2, 3, 6))
    # many sections: nothing may depend on their number
    cat += catalogue((40,), states=(), kinds=('LowPass', 'BandPass') if not rep.thorough() else gen.KINDS)
    S = [('c%d%d' % (n, i), n, s) for n in (1, 2, 4, 18, 70) for i, s in enumerate(gen.STATES)]
    m = machine(gen.biquad('bq'), *cparts(cat), *[gen.sos(p, n, s) for p, n, s in S], *[gen.rbj('r' + k, k) for k in gen.RBJK],
                *[gen.state('s%d' % i, s) for i, s in enumerate(gen.STATES)])
    rep.assume.append('double arithmetic is read as exact real arithmetic (rounding is not modelled)')
    tasks = []
    for p, fam, kind, n, s in cat:
        def one(p=p, fam=fam, kind=kind, n=n, s=s):
            k = K(m, p)
            st, o = k.new()
            st, _ = k.ok(st, '_n', o, *vals(fam, kind))
            body(rep, m, k, st, o, cname(fam, kind, n, s), k.ok(st, '_stages', o)[1], '_coef')
        tasks.append((p, one))
    for p, n, s in S:
        def one(p=p, n=n, s=s):
            k = K(m, p)
            st, o = k.new()
            body(rep, m, k, st, o, 'SOSCascade<%d,%s>' % (n, s), n, '_store')
        tasks.append((p, one))
    for kind in gen.RBJK:
        def one(kind=kind):
            k = K(m, 'r' + kind)
            st, o = k.new()
            body(rep, m, k, st, o, 'RBJ::' + kind, 1, '_coef')
        tasks.append((kind, one))
    bq = K(m, 'bq')
    for i, s in enumerate(gen.STATES):
        def one(i=i, s=s):
            k = K(m, 's%d' % i)
            st, b = bq.new()
            st, _, _ = m.abstract(st, b, list(m.dcells(st, b)), 'c')
            st, o = k.new(st)
            body(rep, m, k, st, o, s, 0, None, '_f', (b,))
        tasks.append((s, one))
    rep.par(m, tasks)
    return rep.finish(150)


def body(rep, m, k, st, o, name, nst, cop, op='_fd', extra=()):
    loc = where(m, k.p + '_reset')
    ch = changing(k, st, o, op, extra)
    cells = m.cells(st, o)
    if not extra:
        st, _, _ = m.abstract(st, o, [q for q in m.dcells(st, o) if q not in ch], 'c')
    fresh = st
    coef0 = [k.coef(fresh, o, i, cop) for i in range(nst)]
    _, ys = steps(k, fresh, o, [ZERO] * 3, op, *extra)
    rep.decide('%s: zero input to a new filter gives zero' % name, name + '/zero', decide_eq(fresh.gate, [(y, ZERO) for y in ys]), where(m, k.p + op))
    for conf, lab in configs(k, fresh, o, op, extra):
        cc = m.cells(conf, o)
        s2, _, _ = m.abstract(conf, o, [q for q in ch if isinstance(cc.get(q), T)], 'd')
        r = k.call(s2, '_reset', o)
        if r.st is None or r.throws:
            rep.violate(name + '/throws', '%s: reset() does not return normally' % name, loc)
            continue
        rep.decide('%s: reset from %s equals a new delay line' % (name, lab), name + '/reset', same_future(m, k, r.st, o, fresh, o, r.st.gate, 5, op, extra), loc)
        if nst:
            c1 = [k.coef(r.st, o, i, cop) for i in range(nst)]
            rep.decide('%s: reset keeps the coefficients' % name, name + '/coef', decide_eq(r.st.gate, [(a, b) for x, y in zip(c1, coef0) for a, b in zip(x, y)]), loc)
    # reset reached through concrete histories
    s2 = fresh
    for j in range(4):
        s2, _ = steps(k, s2, o, [real('h%d' % j)], op, *extra)
        s3, _ = k.ok(s2, '_reset', o)
        rep.decide('%s: reset after %d samples equals a new delay line' % (name, j + 1), name + '/reset', same_future(m, k, s3, o, fresh, o, s3.gate, 5, op, extra), loc)
