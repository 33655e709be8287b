"""C10 range checks of response() and operator[]"""
from ..lib import *

RULE = ('Outcome conditions of Cascade::response(f) for f any real, infinite or NaN and of operator[](i) for i any int, for stage counts 0 to the template maximum: '
        'the condition under which the summary ends in a throw must be exactly "outside the range", every throw of response() must be std::invalid_argument, and the '
        'returned reference must be the section the storage holds at that position.')


def run(rep):
    cat = [('b%d' % n, 'Butterworth', 'LowPass', n, None) for n in (1, 3, 6, 36)] + catalogue((3,), states=('LowPass',))
    m = machine(*cparts(cat))
    rep.par(m, [(p, lambda p=p, fam=fam, kind=kind, n=n: one(rep, m, p, fam, kind, n)) for p, fam, kind, n, s in cat])
    return rep.finish(400)


def one(rep, m, p, fam, kind, n):
    k = K(m, p)
    name = cname(fam, kind, n)
    base, o = k.new()
    for req in [0] + list(range(1, n + 1)):
        st = base if req == 0 else k.ok(base, '_nr', o, req, *vals(fam, kind))[0]
        ns = k.ok(st, '_stages', o)[1]
        if not isinstance(ns, int):
            raise Incomplete('stage count not determined')
        f = real('f')
        inside = band(bnot(eng.c_lt(f, ZERO)), bnot(eng.c_lt(C(Fr(1, 2)), f)))
        loc = where(m, p + '_resp')

        def resp(v):
            s = st.fork(st.gate)
            return k.call(s, '_resp', o, v, m.alloc(s, 16, 'out'))
        r = resp(f)
        check(rep, name, 'response(f), f outside [0,0.5], is rejected', band(r.st.gate, bnot(inside)) if r.st is not None else False, loc, name + '/resp-accept')
        check(rep, name, 'response(f), f in [0,0.5], is accepted', band(r.throw_gate(), inside), loc, name + '/resp-reject')
        for v, lab in ((NAN, 'NaN'), (PINF, 'inf'), (NINF, '-inf')):
            r2 = resp(v)
            if r2.st is not None:
                rep.violate(name + '/resp-' + lab, '%s: response(%s) is accepted' % (name, lab), loc)
            else:
                rep.ob('%s: response(%s) is rejected' % (name, lab))
        for x in r.throws + r2.throws:
            if not m.e.ti_match(x.exc.type, '_ZTISt16invalid_argument'):
                rep.violate(name + '/type', '%s: response() throws %s' % (name, x.exc.type), x.exc.loc)
        # index
        loc = where(m, p + '_at')
        i = mki('sym', ('i',), -(1 << 31), (1 << 31) - 1)
        inr = band(bnot(eng.ilt(i, 0)), eng.ilt(i, ns))
        try:
            r = k.call(st, '_at', o, i)
            check(rep, name, 'operator[](i) outside [0,%d) is rejected' % ns, band(r.st.gate, bnot(inr)) if r.st is not None else False, loc, name + '/index-accept')
            check(rep, name, 'operator[](i) in [0,%d) is accepted' % ns, band(r.throw_gate(), inr), loc, name + '/index-reject')
        except Incomplete as e:
            rep.undec(name + ' index', str(e))
        for j in (-(1 << 31), -2, -1, ns, ns + 1, (1 << 31) - 1):
            r = k.call(st, '_at', o, j)
            if r.st is not None:
                rep.violate(name + '/index-accept', '%s: operator[](%d) is accepted with %d stages' % (name, j, ns), loc)
            else:
                rep.ob('%s: operator[](%d) is rejected with %d stages' % (name, j, ns))
        sp = k.ok(st, '_sptr', o)[1]
        for j in range(ns):
            r = k.call(st, '_at', o, j)
            if r.st is None or r.throws:
                rep.violate(name + '/index-reject', '%s: operator[](%d) is rejected with %d stages' % (name, j, ns), loc)
                continue
            rep.decide('%s: operator[](%d) is stage %d' % (name, j, j), name + '/index', decide_eq(r.st.gate, list(zip(k.coef(st, o, j), k.coef(st, o, j, '_store')))), loc)


def check(rep, name, what, gate, loc, key):
    """the condition must be unsatisfiable"""
    w = find_point(gate) if gate is not False and feasible(gate) else None
    if w is not None:
        rep.violate(key, '%s: not true that %s' % (name, what), loc, pt_show(w))
    else:
        rep.ob('%s: %s' % (name, what), 'excluded' if not feasible(gate) else 'no witness')
