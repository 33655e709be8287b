"""C16 RBJ filters are the Audio EQ Cookbook filters"""
from ..lib import *
from ..specs import *

RULE = ('Coefficients (as the getters report them, normalised by a0) after setupN/setup with unknown frequency in (0, 0.5), Q, gain, slope and bandwidth, on a new and on an '
        'already used object: numerator x denominator of the specification must equal denominator x numerator of the specification as polynomials in z (the specification is the '
        'analogue cookbook prototype H(s) under s = cot(w0/2)(z-1)/(z+1); for IIRNotch unit-circle zeros and poles of radius exp(-pi fc/Q)), decided by algebraic normalisation; '
        'the documented gains at DC, centre and Nyquist are separate obligations; the valid parameters must not be rejected.')


def run(rep):
    m = machine(*[gen.rbj('r' + k, k) for k in gen.RBJK], *[gen.rbjdef('r' + k, k) for k in gen.RBJK if k in gen.RBJDEF])
    rep.assume.append('double arithmetic is read as exact real arithmetic (rounding is not modelled)')
    rep.par(m, [(q, lambda q=q: one(rep, m, q)) for q in gen.RBJK])
    return rep.finish(150)


def one(rep, m, kind):
    k = K(m, 'r' + kind)
    new, o = k.new()
    used, _ = k.ok(new, '_n', o, *vals('RBJ', kind))
    used, _, _ = m.abstract(used, o, list(m.dcells(used, o)), 'old')
    fs = psym('fs')
    ps = psyms('RBJ', kind)
    runs = [('_n', ps), ('_s', [fs, mul(ps[0], fs)] + ps[1:])]
    names = gen.RBJK[kind]
    if kind in gen.RBJDEF:
        # the last argument left out
        d = {'q': div(ONE, fn('sqrt', C(2))), 'slope': ONE}[names[-1]] if kind != 'IIRNotch' else C(10)
        runs += [('_nd', ps[:-1]), ('_sd', [fs, mul(ps[0], fs)] + ps[1:-1])]
    for lab, st in (('new', new), ('used', used)):
        for op, args in runs:
            P_ = ps if op in ('_n', '_s') else ps[:-1] + [d]

            def go():
                what = 'RBJ::%s %s%s' % (kind, op[1:], '' if lab == 'new' else ' on a used object')
                key = '%s/%s' % (kind, op)
                loc = where(m, k.p + op)
                r = k.call(st, op, o, *args)
                w = find_point(r.throw_gate()) if r.throws else None
                if w is not None or r.st is None:
                    rep.violate(key + '/reject', '%s rejects valid parameters' % what, loc, w and pt_show(w))
                    return
                rep.ob('%s accepts every valid parameter' % what, 'excluded')
                b0, b1, b2, a1, a2 = k.norm(r.st, o)
                if not k.defined(rep, r.st.gate, [[b0, b1, b2, a1, a2]], op, what, key):
                    return
                B, A = rbj_spec(kind, dict(zip(names, P_)))
                l, rr = polymul([b0, b1, b2], A), polymul(B, [ONE, a1, a2])
                rep.decide('%s has the cookbook transfer function' % what, key, decide_eq(r.st.gate, list(zip(l, rr)), names=['z^-%d' % i for i in range(5)]), loc)
                v = dict(zip(names, P_))
                for nm, pt, gain in rbj_points(kind, v):
                    num, den = at_point([b0, b1, b2], [ONE, a1, a2], pt)
                    if gain == 'unit':
                        l, rr = add(mul(num[0], num[0]), mul(num[1], num[1])), add(mul(den[0], den[0]), mul(den[1], den[1]))
                        pr = [(l, rr)]
                    else:
                        pr = [(num[0], mul(gain, den[0])), (num[1], mul(gain, den[1]))]
                    rep.decide('%s: gain at %s' % (what, nm), '%s/%s' % (key, nm), decide_eq(r.st.gate, pr), loc)
            rep.guard('RBJ::%s %s' % (kind, op), go)
