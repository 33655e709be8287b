"""C15 NaN never silently becomes a coefficient"""
from .. import terms as t_
from ..fleval import find_nan
from ..lib import *

RULE = ('Floating-point (IEEE, NaN-tracking) summaries of every coefficient-setting call with arguments that may be any double including NaN and infinities: for each '
        'coefficient the filter uses, the value stored on every returning or throwing outcome must be guarded against NaN - the condition "outcome reached and value is NaN" is '
        'unsatisfiable in the guard algebra, where NaN of an unknown arithmetic result is possible unless that very value was tested. A violation needs a concrete argument '
        'valuation (IEEE evaluation of the stored expression) for which the outcome is reached with a NaN. Every throw must be std::invalid_argument.')


def run(rep):
    t_.set_mode('F')
    orders = (1, 2, 3) if not rep.thorough() else (1, 2, 3, 4, 5)
    cat = catalogue(orders, states=())
    S = [('c%d' % n, n, 'DirectFormII') for n in (1, 3)]
    m = machine(gen.biquad('b'), gen.onepole('op'), gen.twopole('tp'), *[gen.rbj('r' + k, k) for k in gen.RBJK], *[gen.sos(p, n, s) for p, n, s in S], *cparts(cat))
    rep.assume.append('library functions may return NaN for any argument unless the analysis knows otherwise')
    tasks = []
    for p, fam, kind, n, s in cat:
        tasks.append((p, lambda p=p, fam=fam, kind=kind, n=n: pole(rep, m, p, fam, kind, n)))
    for p, n, s in S:
        tasks.append((p, lambda p=p, n=n: sos(rep, m, p, n)))
    for p, name, ops in [('b', 'Biquad', []), ('op', 'Custom::OnePole', [('_n', 3)]), ('tp', 'Custom::TwoPole', [('_n', 5)])] + [
            ('r' + q, 'RBJ::' + q, [('_n', len(a)), ('_s', len(a) + 1)]) for q, a in gen.RBJK.items()]:
        tasks.append((p, lambda p=p, name=name, ops=ops: biq(rep, m, p, name, ops + [('_set', 6), ('_scale', 1), ('_ident', 0), ('_one', 4), ('_two', 8), ('_pzp', 8), ('_pz1', 2)])))
    rep.par(m, tasks)
    return rep.finish(700)


def anyd(n):
    return [sym(x, -INF, INF) for x in n]


def holds(rep, m, name, what, key, sx, o, cells, loc, how):
    k = 0
    for q in sorted(cells):
        v = m.cells(sx, o).get(q)
        if not isinstance(v, T):
            continue
        g = band(sx.gate, eng.c_nan(v))
        if g is False or not feasible(g):
            k += 1
            continue
        w = find_nan(sx.gate, v, input_syms([v, sx.gate]))
        if w is not None:
            rep.violate(key, '%s: %s %s leaves a NaN coefficient (offset %d of the object)' % (name, what, how, q), loc, {a: str(b) for a, b in w.items()})
        else:
            rep.undec('%s: %s' % (name, what), 'NaN of the coefficient at offset %d not excluded by a guard, but no valuation found' % q)
    if k:
        rep.ob('%s: %s %s leaves %d coefficients that cannot be NaN' % (name, what, how, k), 'guarded', k)


def outcomes(rep, m, k, name, st, o, op, args, cells):
    loc = where(m, k.p + op)
    key = '%s/%s' % (name, op)
    r = k.call(st, op, o, *args)
    if r.st is not None:
        holds(rep, m, name, op[1:], key, r.st, o, cells(r.st), loc, 'returning')
    for t in r.throws:
        if not m.e.ti_match(t.exc.type, '_ZTISt16invalid_argument'):
            rep.violate(key + '/type', '%s: %s throws %s' % (name, op[1:], t.exc.type), t.exc.loc)
        holds(rep, m, name, op[1:], key + '/throw', t, o, cells(t), loc, 'throwing')


def stage_cells(k, o):
    def f(st):
        n = k.ok(st, '_stages', o)[1]
        r = set()
        for i in range(n if isinstance(n, int) else 0):
            q = k.ok(st, '_at', o, i)[1]
            if isinstance(q, P) and q.obj == o.obj:
                r |= {q.off + 8 * j for j in range(6)}
        return r
    return f


def pole(rep, m, p, fam, kind, n):
    k = K(m, p)
    name = cname(fam, kind, n)
    st, o = k.new()
    ps = gen.params(fam, kind)
    for op, ints, more in (('_n', [], []), ('_nr', [max(1, n - 1)], []), ('_s', [], ['fs']), ('_sr', [n], ['fs'])):
        rep.guard('%s %s' % (name, op), lambda: outcomes(rep, m, k, name, st, o, op, ints + anyd(more + ps), stage_cells(k, o)))


def sos(rep, m, p, n):
    k = K(m, p)
    name = 'SOSCascade<%d>' % n
    st, o = k.new()
    st, arr = k.darray(st, anyd(['s%d' % i for i in range(6 * n)]))
    q = k.ok(st, '_sptr', o)[1] if k.p + '_sptr' in m.p.raw else None
    ch, rd = k.split(st, o)
    cells = {c for c in rd if c not in ch}
    rep.guard(name, lambda: outcomes(rep, m, k, name, st, o, '_sos', [arr], lambda s: cells))


def biq(rep, m, p, name, ops):
    k = K(m, p)
    st, o = k.new()
    if p + '_fd' in m.p.raw:
        ch, rd = k.split(st, o)
        cells = {c for c in m.dcells(st, o) if c not in ch}
    else:
        cells = set(m.dcells(st, o))
    sa, _, _ = m.abstract(st, o, cells, 'old')
    for lab, s in (('new', st), ('any', sa)):
        for op, n in ops:
            if lab == 'new' and op in ('_set', '_scale', '_ident', '_one', '_two', '_pzp', '_pz1') and p[0] == 'r':
                continue
            rep.guard('%s %s' % (name, op), lambda: outcomes(rep, m, k, name, s, o, op, anyd(['q%d' % i for i in range(n)]), lambda s: cells))
