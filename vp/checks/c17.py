"""C17 RBJ stability"""
from ..lib import *
from ..specs import *

RULE = ('Denominator coefficients after setupN/setup with unknown admissible parameters: the three expressions 1+a1+a2, 1-a1+a2 and 1-a2 (all positive if and only if both poles '
        'lie inside the unit circle) must equal a positive certificate (quotients of sums and products of quantities that are positive on the parameter domain, derived from the Hurwitz '
        'coefficients of the analogue prototype), decided by algebraic normalisation. Where the identity fails, an admissible valuation with a non-positive value is searched and is the violation.')


def run(rep):
    m = machine(*[gen.rbj('r' + k, k) for k in gen.RBJK], *[gen.rbjdef('r' + k, k) for k in gen.RBJK if k in gen.RBJDEF])
    rep.assume.append('double arithmetic is read as exact real arithmetic (rounding is not modelled)')
    rep.par(m, [(q, lambda q=q: one(rep, m, q)) for q in gen.RBJK])
    return rep.finish(90)


def one(rep, m, kind):
    k = K(m, 'r' + kind)
    new, o = k.new()
    used, _ = k.ok(new, '_n', o, *vals('RBJ', kind))
    used, _, _ = m.abstract(used, o, list(m.dcells(used, o)), 'old')
    fs = psym('fs')
    names = gen.RBJK[kind]
    ps = psyms('RBJ', kind)
    runs = [('_n', ps), ('_s', [fs, mul(ps[0], fs)] + ps[1:])]
    if kind in gen.RBJDEF:
        runs += [('_nd', ps[:-1]), ('_sd', [fs, mul(ps[0], fs)] + ps[1:-1])]
    for lab, st in (('new', new), ('used', used)):
        for op, args in runs:
            v = dict(zip(names, ps))
            if op in ('_nd', '_sd'):
                v[names[-1]] = C(10) if kind == 'IIRNotch' else ONE if names[-1] == 'slope' else div(ONE, fn('sqrt', C(2)))

            def go():
                what = 'RBJ::%s %s%s' % (kind, op[1:], '' if lab == 'new' else ' on a used object')
                loc = where(m, k.p + op)
                key = '%s/%s' % (kind, op)
                a = k.admit(rep, st, op, o, args, what, key)
                if a is None or not k.defined(rep, a[0].gate, [k.norm(a[0], o)], op, what, key):
                    return
                s = a[0]
                a1, a2 = k.norm(s, o)[3:]
                ex = [add(ONE, add(a1, a2)), add(sub(ONE, a1), a2), sub(ONE, a2)]
                for nm, e, c in zip(('1+a1+a2', '1-a1+a2', '1-a2'), ex, rbj_stable(kind, v)):
                    positive(rep, '%s: %s > 0' % (what, nm), '%s/%s/%s' % (kind, op, nm), s.gate, e, c, loc)
            rep.guard('RBJ::%s %s' % (kind, op), go)
