"""C24 memory safety, initialisation, integer overflow"""
from ..lib import *

RULE = ('Abstract interpretation of sequences of public calls of every class from raw (uninitialised) storage: queries before any setup, every setup overload with unknown '
        'parameters (any real, NaN, infinite) and unknown or extreme order arguments, filtering, reset, queries with unknown arguments, copies and assignments whose source is '
        'destroyed, and the same again after a rejected setup.  At every load, store, memory intrinsic, pointer step, branch and integer operation reached, the access must '
        'stay inside a live object and inside the array member the pointer was formed in, the value must be initialised, and the operation must not overflow; an event whose '
        'path condition has an in-domain valuation is a violation.')

KINDS = {'null-deref', 'bad-access', 'dangling', 'use-after-free', 'out-of-bounds', 'write-to-const', 'uninit-read', 'uninit-pointer', 'uninit-branch', 'uninit-index',
         'uninit-use', 'int-div-zero', 'int-overflow', 'double-free', 'bad-free', 'unbounded-index'}


def run(rep):
    orders = (1, 2, 3, 4) if not rep.thorough() else (1, 2, 3, 4, 5, 6)
    cat = catalogue(orders, states=('LowPass',))
    big = catalogue((7, 12) if not rep.thorough() else (7, 8, 12, 16), states=()) + catalogue((40, 41), states=(), kinds=('LowPass', 'BandStop'))
    parts = cparts(cat) + cparts(big)
    rb = [('r' + x, x) for x in gen.RBJK]
    parts += [gen.rbj(p, x) for p, x in rb]
    so = [('s%d%s' % (n, s), n, s) for n in (1, 2, 5, 18) for s in gen.STATES]
    parts += [gen.sos(*x) for x in so]
    st = [('t' + s, s) for s in gen.STATES]
    parts += [gen.state(*x) for x in st] + [gen.onepole('o1'), gen.twopole('o2'), gen.biquad('bq')]
    parts.append(gen.rawcascade('ca'))
    m = machine(*parts)
    rep.assume.append('accesses of the C++ standard library are checked as the code the compiler instantiates; libm functions are taken to be safe; conversion of a '
                      'filter output outside the range of an integer sample type is not counted')
    tasks = []
    for p, fam, kind, n, s in cat + big:
        tasks.append((p, lambda p=p, fam=fam, kind=kind, n=n: pole(rep, m, p, fam, kind, n)))
    for p, x in rb:
        tasks.append((p, lambda p=p, x=x: rbj(rep, m, p, x)))
    for p, n, s in so:
        tasks.append((p, lambda p=p, n=n, s=s: sos(rep, m, p, n, s)))
    for p, s in st:
        tasks.append((p, lambda p=p, s=s: state(rep, m, p, s)))
    tasks.append(('ca', lambda: raw(rep, m, 'ca')))
    for p in ('o1', 'o2', 'bq'):
        tasks.append((p, lambda p=p: biq(rep, m, p)))
    rep.par(m, tasks)
    return rep.finish(3000)


class Watch:
    """collects the events of the calls made on one class"""

    def __init__(self, rep, m, name):
        self.rep, self.m, self.name = rep, m, name
        self.k = None

    def sweep(self, what):
        n = 0
        m, rep = self.m, self.rep
        for kind, gate, detail, loc, fn in m.e.events:
            if kind not in KINDS or not feasible(gate):
                continue
            n += 1
            key = '%s/%s/%s' % (kind, str(loc).split('/')[-1], str(fn).split('(')[0])
            w = {} if gate is True else find_point(gate)
            if w is None:
                rep.undec('%s: %s' % (self.name, what), '%s at %s: no valuation found' % (kind, loc))
            else:
                rep.violate(key, '%s: %s: %s: %s' % (self.name, what, kind, detail), '%s (%s)' % (fn, loc), pt_show(w))
        m.e.events = []
        if not n:
            rep.ob('%s: %s' % (self.name, what), 'no event')

    def do(self, st, op, *a, what=None):
        """call and check; returns (normal state or None, value, throws)"""
        m = self.m
        m.e.events = []
        what = what or op[1:]
        try:
            r = self.k.call(st, op, *a)
        except Incomplete as e:
            self.sweep(what)
            self.rep.undec('%s: %s' % (self.name, what), str(e))
            return None, None, []
        self.sweep(what)
        return r.st, r.val, r.throws


def anyint(tag):
    return mki('sym', (tag,), -(1 << 31), (1 << 31) - 1)


def use(w, st, o, n, queries, lab, deep=True):
    """every sample type, reset and query on a valid object"""
    m = w.m
    for op in ('_fd', '_ff', '_fi'):
        s2, _, _ = w.do(st, op, o, real('x') if op != '_fi' else anyint('xi'), what='%s %s' % (lab, op[1:]))
        if s2 is not None and op == '_fd':
            st = s2
    s2, _, _ = w.do(st, '_reset', o, what=lab + ' reset')
    if s2 is not None:
        w.do(s2, '_fd', o, real('x'), what=lab + ' filter after reset')
    if not queries:
        return st
    if 'c' in queries:
        w.do(st, '_stages', o, what=lab + ' getNumStages')
        b = m.alloc(st, 8 * 8, 'out')
        w.do(st, '_at', o, anyint('i'), what=lab + ' operator[]')
        w.do(st, '_gain', o, real('g'), what=lab + ' applyScale')
        _, np, _ = w.do(st, '_npz', o, what=lab + ' getPoleZeros')
        if isinstance(np, int):
            for i in range(np):
                w.do(st, '_pz', o, i, b, what=lab + ' getPoleZeros[%d]' % i)
        ns = w.k.ok(st, '_stages', o)[1]
        if isinstance(ns, int):
            for i in range(-1, ns + 2) if deep else (-1, ns, ns + 1):
                w.do(st, '_coef', o, i, b, what=lab + ' getters')
            if ns and deep:
                w.do(st, '_bpz', o, ns - 1, b, what=lab + ' Cascade::getPoleZeros')
    else:
        b = m.alloc(st, 8 * 9, 'out')
        w.do(st, '_pz', o, 0, b, what=lab + ' getPoleZeros')
        w.do(st, '_coef', o, 0, b, what=lab + ' getters')
    b = m.alloc(st, 16, 'out')
    for v in (real('f'), NAN, PINF):
        w.do(st, '_resp', o, v, b, what=lab + ' response')
    return st


def copies(w, st, o, lab, size, again):
    """copy, assign, move; then destroy the source and use the result"""
    m = w.m
    for op in ('_copy', '_move'):
        s = st.fork(st.gate)
        q = m.alloc(s, size, 'copy')
        s2, _, _ = w.do(s, op, q, o, what='%s %s' % (lab, op[1:]))
        if s2 is not None:
            if op == '_copy':
                s2, _, _ = w.do(s2, '_del', o, what=lab + ' destroy the source')
                if s2 is None:
                    continue
                s2 = s2.fork(s2.gate)
                s2.mem.pop(o.obj)
            again(s2, q, '%s, after %s' % (lab, op[1:]))
    for op in ('_assign', '_moveassign'):
        s = st.fork(st.gate)
        q = m.alloc(s, size, 'copy')
        s2, _, _ = w.do(s, '_new', q)
        if s2 is None:
            continue
        s2, _, _ = w.do(s2, op, q, o, what='%s %s' % (lab, op[1:]))
        if s2 is None:
            continue
        if op == '_assign':
            s2, _, _ = w.do(s2, '_del', o, what=lab + ' destroy the source')
            s2 = s2.fork(s2.gate)
            s2.mem.pop(o.obj)
        again(s2, q, '%s, after %s' % (lab, op[1:]))
        s3, _, _ = w.do(s, '_new', q)
        s3, _, _ = w.do(s3, op, q, q, what='%s self-%s' % (lab, op[1:]))


def fresh(rep, m, p, name):
    w = Watch(rep, m, name)
    w.k = K(m, p)
    st = m.state()
    o = m.alloc(st, w.k.size, p)
    st, _, _ = w.do(st, '_new', o, what='construct')
    if st is None:
        raise Incomplete('constructor has no outcome')
    return w, st, o


def pole(rep, m, p, fam, kind, n):
    name = cname(fam, kind, n)
    w, st, o = fresh(rep, m, p, name)
    k = w.k
    deep = n <= 4
    use(w, st, o, n, 'c', 'before any setup')
    if deep:
        copies(w, st, o, 'before any setup', k.size, lambda s, q, lab: use(w, s, q, n, 'c', lab, False))
    ps = gen.params(fam, kind)
    free = [real(x + '?') for x in ps]
    V = vals(fam, kind)
    conc, _, _ = w.do(st, '_n', o, *V, what='setupN')
    # parameters: unknown reals region by region, single odd values elsewhere
    sets = []
    if n <= 2 or (n <= 3 and kind != 'BandShelf'):
        for r in regions(fam, kind, clamp=n < 3):
            sets.append((rsyms(fam, kind, r), r[0]))
    if n <= 1 and not kind.startswith('Band') and not (fam != 'Butterworth' and 'Shelf' in kind):
        sets.append((free, 'any real'))
    for i in range(len(ps)):
        for v, vl in ((NAN, 'NaN'), (PINF, 'inf'), (NINF, '-inf'), (ZERO, '0'), (C(-1), '-1'), (C(Fr(1, 2)), '1/2'), (C(10**6), '1e6')):
            if not deep and v not in (NAN, ZERO):
                continue
            sets.append((V[:i] + [v] + V[i + 1:], '%s=%s' % (ps[i], vl)))
    after = []
    for a, lab in sets:
        for base, bl in ((st, 'first'), (conc, 'second')):
            if base is None or (bl == 'second' and '=' not in lab):
                continue
            s2, _, thr = w.do(base, '_n', o, *a, what='%s setupN (%s)' % (bl, lab))
            for t in thr:
                after.append((t, 'after a rejected %s setup (%s)' % (bl, lab)))
            if s2 is not None and '=' in lab and bl == 'first' and deep:
                use(w, s2, o, n, 'c' if lab.startswith(ps[-1]) else '', 'after setup (%s)' % lab, False)
    reqs = list(range(1, n + 1)) if deep else [1, n - 1]
    big = (1 << 31) - 1
    for r in reqs + [n + 1, n + 2, 2 * n + 3, 100, big, big - 1, 0, -1, -(1 << 31)]:
        for op, pre in (('_nr', []), ('_sr', [ONE])):
            s2, _, thr = w.do(st, op, o, r, *(pre + V), what='%s with order %d' % (op[1:], r))
            if op == '_nr':
                if r in reqs and s2 is not None:
                    use(w, s2, o, n, 'c', 'at order %d' % r, deep)
                    for r2 in (reqs if deep else []):
                        if r2 != r:
                            w.do(s2, '_nr', o, r2, *V, what='order %d after order %d' % (r2, r))
                for t in thr:
                    after.append((t, 'after order %d was rejected' % r))
    seen = 0
    for t, lab in after:
        c = t.fork(t.gate)
        if 'order' in lab or seen < (6 if deep else 2):
            if 'order' not in lab:
                seen += 1
            use(w, c, o, n, 'c', lab, False)
        w.do(c, '_n', o, *V, what=lab + ', setup again')
    if conc is not None and deep:
        copies(w, conc, o, 'designed', k.size, lambda s, q, lab: (use(w, s, q, n, 'c', lab, False), w.do(s, '_n', q, *V, what=lab + ', setup')))
    if n <= 3:
        for base, bl in ((st, 'new'), (conc, 'designed')):
            for j in (0, 1, 2, 3, 4, 5, 13, 16):
                s2, _, thr = w.do(base, '_lay', o, j, what='%s, setLayout of %d poles' % (bl, j))
                for t in thr:
                    use(w, t.fork(t.gate), o, n, 'c', '%s, after a rejected layout of %d poles' % (bl, j), False)
                if s2 is not None:
                    use(w, s2, o, n, 'c', '%s, after a layout of %d poles' % (bl, j), False)
    s2, _, _ = w.do(conc if conc is not None else st, '_s', o, real('fs?'), *V, what='setup with any sampling rate') if n == 1 and not kind.startswith('Band') else (None, None, None)


def raw(rep, m, p):
    """a cascade on storage given by the user"""
    w, st, o = fresh(rep, m, p, 'Cascade')

    def q(s, lab):
        b = m.alloc(s, 64, 'out')
        ns = w.do(s, '_stages', o, what=lab + ' getNumStages')[1]
        for i in [-1, 0, 1, 2, 3, 4, 5, 6] if isinstance(ns, int) else []:
            w.do(s, '_coef', o, i, b, what=lab + ' getters')
        w.do(s, '_at', o, anyint('i'), what=lab + ' operator[]')
        for v in (real('f'), NAN):
            w.do(s, '_resp', o, v, b, what=lab + ' response')
        w.do(s, '_npz', o, what=lab + ' getPoleZeros')
        w.do(s, '_gain', o, real('g'), what=lab + ' applyScale')
    q(st, 'new')
    for n in (1, 2, 5):
        s = st.fork(st.gate)
        a = m.alloc(s, 48 * 5, 'sections')
        s, _, _ = w.do(s, '_biq5', a, what='sections')
        s.wobj(a.obj).size = 48 * n
        s.wobj(a.obj).cells = {q_: v for q_, v in s.wobj(a.obj).cells.items() if q_ < 48 * n}
        s, _, _ = w.do(s, '_arr', o, n, a, what='setCascadeStorage')
        q(s, 'with storage')
        for j in range(0, 14):
            s2, _, thr = w.do(s, '_lay', o, j, what='setLayout of %d poles' % j)
            for t in thr:
                q(t.fork(t.gate), 'after a rejected layout of %d poles' % j)
            if s2 is not None:
                q(s2, 'after a layout of %d poles' % j)


def rbj(rep, m, p, kind):
    w, st, o = fresh(rep, m, p, 'RBJ::' + kind)
    use(w, st, o, 1, 'b', 'before any setup')
    ps = gen.RBJK[kind]
    copies(w, st, o, 'before any setup', w.k.size, lambda s, q, lab: use(w, s, q, 1, '', lab))
    for a, lab in ([([real(x + '?') for x in ps], 'any real')] + [([C(Fr(*VALS[x])) for x in ps[:i]] + [v] + [C(Fr(*VALS[x])) for x in ps[i + 1:]], '%s=%r' % (ps[i], v))
                                                                 for i in range(len(ps)) for v in (NAN, PINF, NINF, ZERO)]):
        s2, _, thr = w.do(st, '_n', o, *a, what='setupN (%s)' % lab)
        w.do(st, '_s', o, real('fs'), *a, what='setup (%s)' % lab)
        if s2 is not None:
            use(w, s2, o, 1, 'b', 'after setup (%s)' % lab)
            if lab == 'any real':
                copies(w, s2, o, 'designed', w.k.size, lambda s, q, l2: use(w, s, q, 1, '', l2))
        for t in thr:
            use(w, t.fork(t.gate), o, 1, '', 'after a rejected setup (%s)' % lab)


def sos(rep, m, p, n, s):
    w, st, o = fresh(rep, m, p, 'SOSCascade<%d,%s>' % (n, s))
    use(w, st, o, n, '', 'before any setup')
    for vals_, lab in (([real('c%d' % i) for i in range(6 * n)], 'any real'), ([NAN] * (6 * n), 'NaN'), ([ZERO] * (6 * n), 'zero')):
        s1, c = w.k.darray(st, vals_)
        s2, _, thr = w.do(s1, '_sos', o, c, what='setup (%s)' % lab)
        s3 = s1.fork(s1.gate)
        q = m.alloc(s3, w.k.size, 'o2')
        w.do(s3, '_newsos', q, c, what='construct (%s)' % lab)
        if s2 is not None:
            if n <= 2 or lab != 'any real':
                use(w, s2, o, n, '', 'after setup (%s)' % lab)
            b = m.alloc(s2, 48, 'out')
            for i in range(n):
                w.do(s2, '_store', o, i, b, what='getters (%s)' % lab)
            if n <= 2:
                copies(w, s2, o, 'designed', w.k.size, lambda s_, q_, l2: use(w, s_, q_, n, '', l2))
        for t in thr[:3]:
            use(w, t.fork(t.gate), o, n, '', 'after a rejected setup (%s)' % lab)


def state(rep, m, p, s):
    w, st, o = fresh(rep, m, p, s)
    kb = K(m, 'bq')
    st, q = kb.new(st)
    for op in ('_f', '_bf'):
        cur = st
        for i in range(3):
            cur, _, _ = w.do(cur, op, o, q, real('x%d' % i), what='%s, sample %d' % (op[1:], i))
            if cur is None:
                break
    r, _, _ = w.do(st, '_reset', o, what='reset')
    w.do(r, '_f', o, q, real('x'), what='filter after reset')
    c = m.alloc(st, w.k.size, 'copy')
    r, _, _ = w.do(st, '_copy', c, o, what='copy')
    w.do(r, '_f', c, q, real('x'), what='filter of the copy')


def biq(rep, m, p):
    w, st, o = fresh(rep, m, p, {'o1': 'OnePole', 'o2': 'TwoPole', 'bq': 'Biquad'}[p])
    R = [real('r%d' % i) for i in range(8)]

    def q(s, lab):
        if s is None:
            return
        b = m.alloc(s, 8 * 9, 'out')
        w.do(s, '_coef', o, 0, b, what=lab + ' getters')
        w.do(s, '_pz', o, 0, b, what=lab + ' getPoleZeros')
        w.do(s, '_bps', o, b, what=lab + ' BiquadPoleState')
        w.do(s, '_resp', o, real('f'), b, what=lab + ' response')
    q(st, 'new')
    s, _, _ = w.do(st, '_set', o, *R[:6], what='setCoefficients')
    q(s, 'after setCoefficients')
    for op, n in (('_one', 4), ('_two', 8), ('_pzp', 8), ('_pz1', 2), ('_scale', 1), ('_ident', 0)):
        s, _, thr = w.do(st, op, o, *R[:n], what=op[1:])
        q(s, 'after ' + op[1:])
        for t in thr[:4]:
            q(t.fork(t.gate), 'after a rejected ' + op[1:])
    for op, n in (('_one', 4), ('_two', 8)):
        w.do(st, op, o, *([NAN] * n), what=op[1:] + ' (NaN)')
    if p != 'bq':
        n = 3 if p == 'o1' else 5
        s, _, thr = w.do(st, '_n', o, *R[:n], what='setup')
        q(s, 'after setup')
        for t in thr[:4]:
            q(t.fork(t.gate), 'after a rejected setup')
