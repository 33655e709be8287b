"""C26 the build without exceptions aborts where the normal build throws"""
import subprocess, tempfile, os
from ..lib import *
from .. import model

RULE = ('The library is compiled twice, as usual and with IIR1_NO_EXCEPTIONS, and the summaries of the same public calls with the same unknown or odd arguments are compared: the condition '
        'under which the first build reaches a throw must equal the condition under which the second reaches abort(), the second must not contain a throwing outcome, and where both return '
        'the result and every data cell of the object must be equal. With -fno-exceptions added every source and an instantiation of every class must still be accepted by the compiler.')


def run(rep):
    orders = (1, 2, 3) if not rep.thorough() else (1, 2, 3, 4, 5)
    cat = catalogue(orders, states=('LowPass',))
    parts = cparts(cat)
    rb = [('r' + x, x) for x in gen.RBJK]
    parts += [gen.rbj(p, x) for p, x in rb]
    so = [('s%d' % n, n) for n in (1, 3)]
    parts += [gen.sos(*x) for x in so]
    bq = [('o1', 'OnePole'), ('o2', 'TwoPole'), ('bq', 'Biquad')]
    parts += [gen.onepole('o1'), gen.twopole('o2'), gen.biquad('bq'), gen.rawcascade('ca')]
    ma = machine(*parts)
    mb = machine(*parts, flags=('-DIIR1_NO_EXCEPTIONS',))
    rep.assume.append('abort() ends the program; double arithmetic is read as exact real arithmetic (rounding is not modelled)')
    compiles(rep, parts)
    tasks = []
    for p, fam, kind, n, s in cat:
        tasks.append((p, lambda p=p, fam=fam, kind=kind, n=n: pole(Pair(rep, ma, mb, p, cname(fam, kind, n)), fam, kind, n)))
    for p, x in rb:
        tasks.append((p, lambda p=p, x=x: rbj(Pair(rep, ma, mb, p, 'RBJ::' + x), x)))
    for p, n in so:
        tasks.append((p, lambda p=p, n=n: sos(Pair(rep, ma, mb, p, 'SOSCascade<%d>' % n), n)))
    for p, nm in bq:
        tasks.append((p, lambda p=p, nm=nm: biq(Pair(rep, ma, mb, p, nm))))
    tasks.append(('ca', lambda: cascade(Pair(rep, ma, mb, 'ca', 'Cascade'))))
    rep.par(ma, tasks)
    return rep.finish(1000)


def compiles(rep, parts):
    """nothing outside the guard may need exception support"""
    with tempfile.TemporaryDirectory(prefix='vp-') as d:
        drv = os.path.join(d, 'drv.cpp')
        with open(drv, 'w') as f:
            f.write(gen.unit(*parts))
        for u in model.sources() + [drv]:
            r = subprocess.run(['clang++', '-std=c++11', '-fsyntax-only', '-fno-exceptions', '-DIIR1_NO_EXCEPTIONS', '-I' + model.REPO, '-I' + os.path.join(VERIF, 'drivers'), u], capture_output=True, text=True)
            nm = 'every class template' if u == drv else os.path.relpath(u, model.REPO)
            if r.returncode:
                first = [l for l in r.stderr.splitlines() if 'error:' in l][:1] or [r.stderr[-300:]]
                rep.violate('compile/%s' % nm, '%s is not accepted with IIR1_NO_EXCEPTIONS and -fno-exceptions: %s' % (nm, first[0]), u)
            else:
                rep.ob('%s is accepted without exception support' % nm, 'compiler')


class Pair:
    """the same object in both builds"""

    def __init__(self, rep, ma, mb, p, name, other=None):
        self.rep, self.name, self.p, self.other = rep, name, p, other
        self.a, self.b = K(ma, p), K(mb, p)

    def new(self):
        r = []
        for k in (self.a, self.b):
            st = k.m.state()
            o = k.m.alloc(st, k.size, self.p)
            x = k.call(st, '_new', o)
            if x.st is None:
                raise Incomplete('constructor has no outcome')
            r.append((x.st, o))
        return r

    def call(self, S, op, args, what, buf=0):
        return self.rep.guard('%s: %s' % (self.name, what), self.call_, S, op, args, what, buf)

    def call_(self, S, op, args, what, buf):
        """compare one call; returns the pair of normal states or None"""
        rep = self.rep
        key = '%s/%s' % (self.name, op[1:])
        loc = where(self.a.m, self.p + op)
        R = []
        for i, (k, (st, o)) in enumerate(zip((self.a, self.b), S)):
            s = st.fork(st.gate)
            x = [y[i] if isinstance(y, tuple) else y for y in args]
            bf = k.m.alloc(s, 8 * buf, 'out') if buf else None
            R.append((k.call(s, op, o, *(x + ([bf] if buf else []))), bf))
        (ra, ba), (rb, bb) = R
        ga, gb = ra.throw_gate(), rb.throw_gate()
        ab = False
        for x in rb.aborts:
            if self.other is None and x[1] != 'abort':
                w = find_point(x[0])
                if w is not None:
                    rep.violate(key + '/stop', '%s: %s stops through %s instead of abort()' % (self.name, what, x[1]), str(x[2]), pt_show(w))
            ab = bor(ab, x[0])
        if self.other is None:
            why = ((band(ga, bnot(ab)), 'throws in the normal build but does not abort without exceptions'),
                   (band(ab, bnot(ga)), 'aborts without exceptions but does not throw in the normal build'),
                   (gb, 'throws although exceptions are disabled'))
        else:
            aa = False
            for x in ra.aborts:
                aa = bor(aa, x[0])
            why = ((band(ga, bnot(gb)), 'throws in the reference build but not with ' + self.other), (band(gb, bnot(ga)), 'throws with %s but not in the reference build' % self.other),
                   (band(aa, bnot(ab)), 'stops the program in the reference build but not with ' + self.other), (band(ab, bnot(aa)), 'stops the program with ' + self.other))
        for g, t in why:
            w = find_point(g) if g is not False and feasible(g) else None
            if w is not None:
                rep.violate(key, '%s: %s %s' % (self.name, what, t), loc, pt_show(w))
                return None
        rep.ob('%s: %s %s' % (self.name, what, 'stops exactly where the normal build throws' if self.other is None else 'is rejected for the same arguments with ' + self.other), 'excluded')
        if ra.st is None or rb.st is None:
            if (ra.st is None) != (rb.st is None):
                st = ra.st or rb.st
                w = find_point(st.gate)
                if w is not None:
                    rep.violate(key, '%s: %s returns in one build only (%s)' % (self.name, what, self.other or 'exceptions on and off'), loc, pt_show(w))
            return None
        pairs, names = [], []
        ca, cb = self.a.m.cells(ra.st, S[0][1]), self.b.m.cells(rb.st, S[1][1])
        if buf:
            for q, (sz, v) in ra.st.mem[ba.obj].cells.items():
                ca[('out', q)] = v
            for q, (sz, v) in rb.st.mem[bb.obj].cells.items():
                cb[('out', q)] = v
        if isinstance(ra.val, (T, int)) or isinstance(rb.val, (T, int)):
            ca['result'], cb['result'] = ra.val, rb.val
        bad = []
        for q in set(ca) | set(cb):
            x, y = ca.get(q), cb.get(q)
            if x is y or eng.veq(x, y) or (isinstance(x, P) and isinstance(y, P)):
                continue
            if isinstance(x, T) and isinstance(y, T):
                pairs.append((x, y))
                names.append('cell %s' % (q,))
            else:
                bad.append(q)
        if bad:
            rep.violate(key + '/state', '%s: %s leaves other values at %s' % (self.name, what, sorted(map(str, bad))[:4]), loc)
            return None
        rep.decide('%s: %s has the same effect in both builds' % (self.name, what), key + '/state', decide_eq(band(ra.st.gate, rb.st.gate), pairs, names=names), loc)
        return [(ra.st, S[0][1]), (rb.st, S[1][1])]


ODD = [(NAN, 'NaN'), (PINF, 'inf'), (NINF, '-inf'), (ZERO, '0'), (C(-1), '-1'), (C(Fr(1, 2)), '1/2'), (C(3), '3')]


def anyint(t):
    return mki('sym', (t,), -(1 << 31), (1 << 31) - 1)


def queries(w, S, lab, ns=True):
    run3(w, S, lab)
    w.call(S, '_reset', [], lab + ' reset()')
    cas(w, S, lab, ns)


def run3(w, S, lab):
    """three samples in a row, so that the delay lines hold something"""
    for i in (1, 2, 3):
        S = w.call(S, '_fd', [real('x%d' % i)], '%s sample %d of filter()' % (lab, i))
        if not S:
            return


def cas(w, S, lab, ns):
    for v in (real('f'), NAN, PINF, NINF):
        w.call(S, '_resp', [v], lab + ' response(%s)' % show(v), 2)
    if ns:
        for i in (-(1 << 31), -1, 0, 1, 2, 3, 100):
            w.call(S, '_coef', [i], lab + ' operator[](%d)' % i, 6)


def pole(w, fam, kind, n):
    S = w.new()
    queries(w, S, 'before setup,')
    V = vals(fam, kind)
    ps = gen.params(fam, kind)
    D = w.call(S, '_n', V, 'setupN')
    if D:
        queries(w, D, 'after setup,')
    for r in [-(1 << 31), -1, 0] + list(range(1, n + 1)) + [n + 1, n + 2, 100, (1 << 31) - 1]:
        w.call(S, '_nr', [r] + V, 'setupN of order %d' % r)
        w.call(S, '_sr', [r, C(10)] + [mul(x, C(10)) if q in ('fc', 'fw') else x for q, x in zip(ps, V)], 'setup of order %d' % r)
    sets = [(V[:i] + [v] + V[i + 1:], '%s=%s' % (q, l)) for i, q in enumerate(ps) for v, l in ODD]
    if n <= 2:
        sets += [(rsyms(fam, kind, r), r[0] or 'any parameters') for r in regions(fam, kind, clamp=n < 2)]
    if n <= 1 and not kind.startswith('Band') and not (fam != 'Butterworth' and 'Shelf' in kind):
        sets.append(([real(q + '?') for q in ps], 'any real arguments'))
    for a, lab in sets:
        w.call(S, '_n', a, 'setupN (%s)' % lab)
        if '=' in lab:
            w.call(S, '_s', [C(10)] + [mul(x, C(10)) if q in ('fc', 'fw') and not is_sp(x) else x for q, x in zip(ps, a)], 'setup (%s)' % lab)
            if D:
                w.call(D, '_n', a, 'second setupN (%s)' % lab)
    if n <= 2:
        for j in (0, 1, 2, 3, 4, 13):
            w.call(S, '_lay', [j], 'setLayout of %d poles' % j)


def rbj(w, kind):
    S = w.new()
    queries(w, S, 'before setup,', False)
    ps = gen.RBJK[kind]
    V = [C(Fr(*VALS[x])) for x in ps]
    D = w.call(S, '_n', V, 'setupN')
    if D:
        queries(w, D, 'after setup,', False)
    for a, lab in [([real(x + '?') for x in ps], 'any real arguments')] + [(V[:i] + [v] + V[i + 1:], '%s=%s' % (q, l)) for i, q in enumerate(ps) for v, l in ODD]:
        w.call(S, '_n', a, 'setupN (%s)' % lab)
        w.call(S, '_s', [real('fs')] + a, 'setup (%s)' % lab)


def sos(w, n):
    S = w.new()
    for vs, lab in (([real('c%d' % i) for i in range(6 * n)], 'any coefficients'), ([NAN] * (6 * n), 'NaN'), ([ZERO] * (6 * n), 'zero')):
        T_ = []
        c = []
        for k, (st, o) in zip((w.a, w.b), S):
            s, b = k.darray(st, vs)
            T_.append((s, o))
            c.append(b)
        D = w.call(T_, '_sos', [tuple(c)], 'setup (%s)' % lab)
        if D:
            run3(w, D, 'after setup (%s),' % lab)


def biq(w):
    S = w.new()
    R = [real('r%d' % i) for i in range(8)]
    cas(w, S, 'new,', False)
    for op, n in (('_set', 6), ('_one', 4), ('_two', 8), ('_pzp', 8), ('_pz1', 2), ('_scale', 1), ('_ident', 0)):
        w.call(S, op, R[:n], op[1:])
        for i in range(n):
            for v, l in ODD[:4]:
                w.call(S, op, R[:i] + [v] + R[i + 1:n], '%s, argument %d is %s' % (op[1:], i, l))
        w.call(S, op, [NAN] * n, op[1:] + ' (NaN)')
    if w.p != 'bq':
        n = 3 if w.p == 'o1' else 5
        w.call(S, '_n', R[:n], 'setup')
        for i in range(n):
            for v, l in ODD[:4]:
                w.call(S, '_n', R[:i] + [v] + R[i + 1:n], 'setup, argument %d is %s' % (i, l))


def cascade(w):
    S = w.new()
    cas(w, S, 'new,', True)
    for n in (1, 3):
        T_, bs = [], []
        for k, (st, o) in zip((w.a, w.b), S):
            s = st.fork(st.gate)
            b = k.m.alloc(s, 48 * 5, 'sections')
            s, _ = k.ok(s, '_biq5', b)
            s, _ = k.ok(s, '_arr', o, n, b)
            T_.append((s, o))
        cas(w, T_, 'with storage,', True)
        for j in range(0, 14):
            D = w.call(T_, '_lay', [j], 'setLayout of %d poles' % j)
            if D:
                cas(w, D, 'after a layout of %d poles,' % j, True)
