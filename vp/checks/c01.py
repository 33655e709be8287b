"""C01 every delay-line topology realises the biquad difference equation"""
from ..lib import *

RULE = ('Value-flow summaries of State::filter / Biquad::filter / RBJ filter composed over consecutive calls: (1) base: outputs 0..5 from a freshly '
        'constructed state equal the zero-history recursion y=b0x+b1x1+b2x2-a1y1-a2y2 of the coefficients the getters report; (2) induction: with every '
        'delay cell replaced by an arbitrary real, outputs two calls later satisfy the recursion over the preceding calls, so it holds for every history. '
        'Equalities are decided per guarded case as algebraic identities (normal form over a finite field); a refutation is a concrete input valuation.')
CO = ['a0', 'a1', 'a2', 'b0', 'b1', 'b2']


def run(rep):
    model.COINCIDE[0] = True
    m = machine(gen.biquad('bq'), *[gen.state('s%d' % i, s) for i, s in enumerate(gen.STATES)], *[gen.rbj('r' + k, k) for k in gen.RBJK])
    rep.assume.append('double arithmetic is read as exact real arithmetic (rounding is not modelled)')
    bq = K(m, 'bq')
    co = [real(c) for c in CO]
    tasks = []
    for i, S in enumerate(gen.STATES):
        k = K(m, 's%d' % i)
        for op in ('_f', '_bf'):
            def one(part, op=op, S=S, k=k):
                st, b = bq.new()
                st, _ = bq.ok(st, '_set', b, *co)
                c = bq.norm(st, b)
                st, o = k.new(st)
                topology(rep, m, k, st, o, c, '%s via %s' % (S, 'State::filter' if op == '_f' else 'Biquad::filter'), op, S, part, b)
            tasks += [('%s%s %s' % (S, op, q), lambda q=q, one=one: one(q)) for q in ('base', 'step')]
    for kind in gen.RBJK:
        def one(part, kind=kind):
            k = K(m, 'r' + kind)
            st, o = k.new()
            st, _ = k.ok(st, '_set', o, *co)
            topology(rep, m, k, st, o, k.norm(st, o), 'RBJ::%s' % kind, '_fd', 'RBJ::' + kind, part)
        tasks += [('RBJ %s %s' % (kind, q), lambda q=q, one=one: one(q)) for q in ('base', 'step')]
    rep.par(m, tasks)
    return rep.finish(30)


def topology(rep, m, k, st, o, c, what, op, key, part, *extra):
    gate = st.gate
    loc = where(m, k.p + op)
    xs = [real('x%d' % n) for n in range(6)]
    if part == 'base':
        ys = []
        for n in range(6):
            st, y = k.ok(st, op, o, *extra, xs[n])
            ys.append(y)
            v = decide_eq(band(gate, nonzero_a0(real('a0'))), [(ys[n], recursion(c, xs, ys, n))])
            rep.decide('%s: output %d from a fresh state' % (what, n), '%s/base' % key, v, loc)
        return
    # induction over the reachable control configurations
    for conf, lab in configs(k, st, o, op, extra):
        ch = changing(k, conf, o, op, extra)
        cells = m.cells(conf, o)
        s2, new, old = m.abstract(conf, o, [q for q in ch if isinstance(cells.get(q), T)], 'd')
        ys = []
        for n in range(6):
            s2, y = k.ok(s2, op, o, *extra, xs[n])
            ys.append(y)
            if n < 2:
                continue
            v = decide_eq(band(gate, nonzero_a0(real('a0'))), [(ys[n], recursion(c, xs, ys, n))])
            rep.decide('%s: output %d after arbitrary delay contents (%s)' % (what, n, lab), '%s/step' % key, v, loc)
