"""C04 coefficients and delay line do not disturb each other; queries change nothing"""
from ..lib import *

RULE = ('Effect summaries of every public operation on an object whose delay cells and coefficients are unknowns: setup/setupN (normal and throwing '
        'outcomes) leaves the delay line as it was, filter() leaves every reported coefficient as it was, and response(), getPoleZeros(), getNumStages(), '
        'operator[] and the getters change no cell (or no future output and coefficient).')


def run(rep):
    cat = catalogue((3,) if not rep.thorough() else (1, 2, 3, 6))
    cat += catalogue((36,), states=(), kinds=('LowPass', 'HighPass') if not rep.thorough() else list(gen.KINDS)[:4])
    S = [('c%d%d' % (n, i), n, s) for n in (1, 3, 18) for i, s in enumerate(gen.STATES)]
    m = machine(*cparts(cat), *[gen.sos(p, n, s) for p, n, s in S], *[gen.rbj('r' + k, k) for k in gen.RBJK])
    rep.assume.append('double arithmetic is read as exact real arithmetic (rounding is not modelled)')
    tasks = []
    for p, fam, kind, n, s in cat:
        def one(p=p, fam=fam, kind=kind, n=n, s=s):
            k = K(m, p)
            st, o = k.new()
            st, _ = k.ok(st, '_n', o, *vals(fam, kind))
            rs = regions(fam, kind)
            ps = rsyms(fam, kind, rs[0], '2')
            body(rep, m, k, st, o, cname(fam, kind, n, s), k.ok(st, '_stages', o)[1], '_coef',
                 [('_n', rsyms(fam, kind, r, '2')) for r in rs] + [('_nr', [max(1, n - 1)] + ps), ('_nr', [n + 1] + ps), ('_n', [sym('bad', 0.5, INF, nan=False)] + ps[1:]), ('_s', [psym('fs')] + [mul(ps[0], psym('fs'))] + ps[1:])],
                 [('_resp', [psym('fc', 'r')], 2), ('_pz', [0], 8), ('_bpz', [0], 8), ('_npz', [], 0), ('_stages', [], 0), ('_coef', [0], 6), ('_resp', [sym('bad', 0.5, INF, lopen=True, nan=False)], 2)])
        tasks.append((p, one))
    for p, n, s in S:
        def one(p=p, n=n, s=s):
            k = K(m, p)
            st, o = k.new()
            st, arr = k.darray(st, [real('s%d' % i) for i in range(6 * n)])
            body(rep, m, k, st, o, 'SOSCascade<%d,%s>' % (n, s), n, '_store', [('_sos', [arr])], [('_store', [0], 6), ('_smax', [], 0)])
        tasks.append((p, one))
    for kind in gen.RBJK:
        def one(kind=kind):
            k = K(m, 'r' + kind)
            st, o = k.new()
            ps = psyms('RBJ', kind, '2')
            body(rep, m, k, st, o, 'RBJ::' + kind, 1, '_coef', [('_n', ps), ('_s', [psym('fs')] + ps), ('_set', [real('q%d' % i) for i in range(6)]), ('_scale', [real('g')]), ('_ident', [])],
                 [('_resp', [real('f')], 2), ('_pz', [0], 8), ('_npz', [], 0), ('_coef', [0], 6)])
        tasks.append((kind, one))
    rep.par(m, tasks)
    return rep.finish(250)


def body(rep, m, k, st, o, name, nst, cop, setups, queries):
    ch = changing(k, st, o)
    st, _, _ = m.abstract(st, o, [q for q in m.dcells(st, o) if q not in ch], 'c')
    for conf, lab in configs(k, st, o):
        cc = m.cells(conf, o)
        dl = [q for q in ch if isinstance(cc.get(q), T)]
        s0, _, _ = m.abstract(conf, o, dl, 'd')
        base = m.cells(s0, o)
        coef0 = [k.coef(s0, o, i, cop) for i in range(nst)]
        # filter keeps the coefficients
        s1, _ = steps(k, s0, o, [real('x%d' % j) for j in range(2)])
        c1 = [k.coef(s1, o, i, cop) for i in range(nst)]
        rep.decide('%s: filter() keeps the coefficients' % name, name + '/filter', decide_eq(s1.gate, [(a, b) for x, y in zip(c1, coef0) for a, b in zip(x, y)]), where(m, k.p + '_fd'))
        for op, args in setups:
            def one():
                r = k.call(s0, op, o, *args)
                for sx, how in [(r.st, 'returning')] * (r.st is not None) + [(t, 'throwing') for t in r.throws]:
                    cx = m.cells(sx, o)
                    bad = [q for q in ch if not eng.veq(cx.get(q), base.get(q)) and cx.get(q) is not base.get(q)]
                    if not bad:
                        v = Verdict(True, 'syntactic')
                    else:
                        # restore the delay cells and compare the future outputs
                        sy = sx.fork(sx.gate)
                        ob = sy.wobj(o.obj)
                        for q in bad:
                            if q in s0.mem[o.obj].cells:
                                ob.cells[q] = s0.mem[o.obj].cells[q]
                        v = same_future(m, k, sx, o, sy, o, sx.gate)
                    rep.decide('%s: %s %s leaves the delay line alone' % (name, how, op[1:]), '%s/%s' % (name, op), v, where(m, k.p + op))
            rep.guard(name + op, one)
        for op, args, nout in queries:
            def one():
                a = list(args)
                sq = s0
                if nout:
                    sq = sq.fork(sq.gate)
                    a.append(m.alloc(sq, 8 * nout, 'out'))
                r = k.call(sq, op, o, *a)
                for sx in ([r.st] if r.st is not None else []) + r.throws:
                    if not changed(m.cells(sx, o), base):
                        v = Verdict(True, 'syntactic')
                    else:
                        v = same_future(m, k, sx, o, s0, o, sx.gate)
                        if v.ok:
                            cx = [k.coef(sx, o, i, cop) for i in range(nst)]
                            v = decide_eq(sx.gate, [(a, b) for x, y in zip(cx, coef0) for a, b in zip(x, y)])
                    rep.decide('%s: %s changes nothing' % (name, op[1:]), '%s/%s' % (name, op), v, where(m, k.p + op))
            rep.guard(name + op, one)
