"""C25 OnePole and TwoPole"""
from ..lib import *

RULE = ('Coefficients (normalised by a0) after Custom::OnePole::setup and Custom::TwoPole::setup with unknown scale, roots, radii and angles on a new and on a used object: they must equal '
        's(1 - z z^-1)/(1 - p z^-1) and s(1 - 2 rz cos(tz) z^-1 + rz^2 z^-2)/(1 - 2 rp cos(tp) z^-1 + rp^2 z^-2), decided by algebraic normalisation per guarded case '
        '(real and complex roots), and no finite argument is rejected.')


def run(rep):
    m = machine(gen.onepole('op'), gen.twopole('tp'))
    rep.assume.append('double arithmetic is read as exact real arithmetic (rounding is not modelled); radii are not negative (std::polar)')
    s, p, z = real('s'), real('p'), real('z')
    rp, rz = (sym(x, 0.0, INF, nan=False) for x in ('rp', 'rz'))
    tp, tz = real('tp'), real('tz')

    def quad(r, t):
        return [ONE, mul(mul(C(-2), r), f1('cos', t)), mul(r, r)]
    one = [('any', [s, p, z]), ('zero pole', [s, ZERO, z]), ('zero zero', [s, p, ZERO]), ('zero scale', [ZERO, p, z]), ('both zero', [s, ZERO, ZERO])]
    two = [('any', [s, rp, tp, rz, tz])]
    for lab, t in (('0', ZERO), ('pi', PI), ('pi/2', div(PI, C(2))), ('1', ONE), ('-1', C(-1))):
        two += [('pole angle ' + lab, [s, rp, t, rz, tz]), ('zero angle ' + lab, [s, rp, tp, rz, t]), ('both angles ' + lab, [s, rp, t, rz, t])]
    two += [('pole radius 0', [s, ZERO, tp, rz, tz]), ('zero radius 0', [s, rp, tp, ZERO, tz]), ('scale 0', [ZERO, rp, tp, rz, tz]), ('same roots', [s, rp, tp, rp, tp]),
            ('zero radius 1', [s, rp, tp, ONE, tz])]
    tasks = []
    for lab, a in one:
        tasks.append(('OnePole ' + lab, lambda lab=lab, a=a: setup(rep, m, 'op', 'OnePole', lab, a, [a[0], neg(mul(a[0], a[2])), ZERO], [neg(a[1]), ZERO])))
    for lab, a in two:
        tasks.append(('TwoPole ' + lab, lambda lab=lab, a=a: setup(rep, m, 'tp', 'TwoPole', lab, a, [mul(a[0], c) for c in quad(a[3], a[4])], quad(a[1], a[2])[1:])))
    rep.par(m, tasks)
    return rep.finish(80)


def setup(rep, m, p, name, lab, args, B, A):
    k = K(m, p)
    for used in (False, True):
        st, o = k.new()
        if used:
            st, _ = k.ok(st, '_n', o, *[C(1)] * (len(args)))
            st, _, _ = m.abstract(st, o, list(m.dcells(st, o)), 'old')
        loc = where(m, p + '_n')
        r = k.call(st, '_n', o, *args)
        what = 'Custom::%s::setup (%s%s)' % (name, lab, ', used object' if used else '')
        w = find_point(r.throw_gate()) if r.throws else None
        if r.st is None or w is not None:
            rep.violate('%s/%s/reject' % (name, lab), '%s rejects finite arguments' % what, loc, w and pt_show(w))
            continue
        rep.ob('%s accepts all finite arguments' % what, 'excluded')
        rep.decide('%s: transfer function' % what, '%s/%s' % (name, lab), decide_eq(r.st.gate, list(zip(k.norm(r.st, o), B + A)), names=['b0', 'b1', 'b2', 'a1', 'a2']), loc)
