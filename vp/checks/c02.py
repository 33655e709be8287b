"""C02 a cascade is the composition of its sections; sample types are converted once"""
from ..lib import *

RULE = ('Value-flow summaries of the filter() member composed over consecutive samples. For SOSCascade<N,State> with symbolic coefficients and for every '
        'IIR designer class with arbitrary stored coefficients: (base) outputs from a fresh delay line equal the chained zero-history difference '
        'equations of the sections reported by the class, (step) from arbitrary delay contents the output obeys the product polynomial recursion of the '
        'sections. For float/int/short/long samples the result is the single final conversion of the double result and the delay line is updated as for double.')
CO = ['b0', 'b1', 'b2', 'a0', 'a1', 'a2']


def run(rep):
    model.COINCIDE[0] = True
    T_ = ['double', 'float', 'int', 'short', 'long']
    ns = (1, 2, 3, 4) if not rep.thorough() else (1, 2, 3, 4, 6, 8)
    parts = [gen.sos('c%d%d' % (n, i), n, s).replace('', '') for n in ns + BIG for i, s in enumerate(gen.STATES)]
    cls = []
    for fam in gen.FAMS:
        for kind in gen.KINDS:
            sts = gen.STATES if kind in ('LowPass', 'BandStop') else [None]
            for s in sts:
                p = 'p%s%s%s' % (fam, kind, s or '')
                cls.append((p, fam, kind, s))
                parts.append(gen.pole(p, fam, kind, 3, s))
    parts.append(gen.pole('lo', 'Butterworth', 'LowPass', 7))
    for k in gen.RBJK:
        parts.append(gen.rbj('r' + k, k))
    # extra sample types on representative instances
    ext = ['c20', 'c11', 'pButterworthLowPassDirectFormII', 'rLowPass']
    for p in ext:
        for t, c in (('short', 's'), ('long', 'l')):
            parts.append('%s %s_f%s(%s_T *o, %s x) { return o->filter(x); }\n' % (t, p, c, p, t))
    m = machine(*parts)
    rep.assume.append('double arithmetic is read as exact real arithmetic (rounding is not modelled)')
    tasks = []

    def task(lab, f, *a):
        tasks.append((lab, lambda: f(*a)))
    for n in ns + BIG:
        for i, S in enumerate(gen.STATES):
            task('SOS %d %s' % (n, S), sos, rep, m, 'c%d%d' % (n, i), n, S)
    for p, fam, kind, s in cls:
        task(p, polecls, rep, m, p, fam, kind, s)
    task('lower order', lower, rep, m)
    for p in ['c%d%d' % (n, i) for n in ns[:2] for i in range(3)] + [c[0] for c in cls] + ['r' + k for k in gen.RBJK]:
        task('types ' + p, types, rep, m, p, ['f', 'i'] + (['s', 'l'] if p in ext else []))
    rep.par(m, tasks)
    return rep.finish(120)


def product(rep, m, k, conf, o, cs, gate, desc, key, loc, n):
    xs = [real('x%d' % j) for j in range(2 * n + 2)]
    B, A = prodpoly(cs)
    ch = changing(k, conf, o)
    cells = m.cells(conf, o)
    s2, new, old = m.abstract(conf, o, [q for q in ch if isinstance(cells.get(q), T)], 'd')
    _, ys = steps(k, s2, o, xs)
    for j in (2 * n, 2 * n + 1):
        want = sub(sop([(B[q], xs[j - q]) for q in range(2 * n + 1)]), sop([(A[q], ys[j - q]) for q in range(1, 2 * n + 1)]))
        v = decide_eq(gate, [(ys[j], want)])
        rep.decide('%s: output %d after arbitrary delay contents' % (desc, j), key, v, loc)


def sos(rep, m, p, n, S):
    k = K(m, p)
    st, o = k.new()
    co = [real('%s_%d' % (c, i)) for i in range(n) for c in CO]
    st, arr = k.darray(st, co)
    st, _ = k.ok(st, '_sos', o, arr)
    cs = [k.norm(st, o, i, '_store') for i in range(n)]
    gate = st.gate
    for i in range(n):
        gate = band(gate, nonzero_a0(co[6 * i + 3]))
    desc, key, loc = 'SOSCascade<%d,%s>' % (n, S), 'SOSCascade<%d,%s>' % (n, S), where(m, p + '_fd')
    xs = [real('x%d' % j) for j in range(5 if n not in BIG else 3)]
    _, ys = steps(k, st, o, xs)
    for j, (y, w) in enumerate(zip(ys, chain(cs, xs))):
        rep.decide('%s: output %d from a fresh state' % (desc, j), key, decide_eq(gate, [(y, w)]), loc)
    if n in BIG:
        return
    for conf, lab in configs(k, st, o):
        product(rep, m, k, conf, o, cs, gate, desc, key, loc, n)


def ready(m, p, fam, kind, pre=''):
    """freshly set-up object with every floating cell arbitrary"""
    k = K(m, p)
    st, o = k.new()
    if fam != 'RBJ':
        st, _ = k.ok(st, '_n', o, *[C(Fr(*VALS[x])) for x in gen.params(fam, kind)])
    return k, st, o


BIG = (12, 33)             # from a fresh delay line only
INTS = {'i': 2**31 - 1, 's': 2**15 - 1, 'l': 2**53}
VALS = {'fc': (1, 5), 'fw': (1, 10), 'gain': (6, 1), 'ripple': (1, 1), 'stop': (40, 1), 'q': (1, 1), 'slope': (1, 2), 'bw': (1, 1), 'fs': (1000, 1)}


def polecls(rep, m, p, fam, kind, S):
    k, st, o = ready(m, p, fam, kind)
    ch = changing(k, st, o)
    cells = m.cells(st, o)
    st, _, _ = m.abstract(st, o, [q for q in m.dcells(st, o) if q not in ch], 'c')
    n = k.ok(st, '_stages', o)[1]
    loc = where(m, p + '_fd')
    desc = '%s::%s<3%s>' % (fam, kind, ',' + S if S else '')
    cs = [k.norm(st, o, i) for i in range(n)]
    gate = st.gate
    for i in range(n):
        gate = band(gate, nonzero_a0(k.coef(st, o, i)[0]))
    st2, _ = k.ok(st, '_reset', o)
    xs = [real('x%d' % j) for j in range(4)]
    _, ys = steps(k, st2, o, xs)
    for j, (y, w) in enumerate(zip(ys, chain(cs, xs))):
        rep.decide('%s: output %d after reset' % (desc, j), desc, decide_eq(gate, [(y, w)]), loc)
    for conf, lab in configs(k, st2, o):
        product(rep, m, k, conf, o, cs, gate, desc, desc, loc, n)


def lower(rep, m):
    k = K(m, 'lo')
    for r in (1, 2, 4, 6):
        st, o = k.new()
        st, _ = k.ok(st, '_nr', o, r, C(Fr(1, 5)))
        n = k.ok(st, '_stages', o)[1]
        cs = [k.norm(st, o, i) for i in range(n)]
        xs = [real('x%d' % j) for j in range(4)]
        _, ys = steps(k, st, o, xs)
        for j, (y, w) in enumerate(zip(ys, chain(cs, xs))):
            rep.decide('Butterworth::LowPass<7> at order %d: output %d uses exactly its %d sections' % (r, j, n), 'lower-order', decide_eq(st.gate, [(y, w)]), where(m, 'lo_fd'))


def types(rep, m, p, ts):
    k = K(m, p)
    if p[0] == 'p':
        fam = [f for f in gen.FAMS if p[1:].startswith(f + 'L') or p[1:].startswith(f + 'H') or p[1:].startswith(f + 'B')][0]
        kind = sorted((q for q in gen.KINDS if p[1 + len(fam):].startswith(q)), key=len)[-1]
        k, st, o = ready(m, p, fam, kind)
    else:
        st, o = k.new()
    for conf, lab in configs(k, st, o):
        st, _, _ = m.abstract(conf, o, list(m.dcells(conf, o)), 'v')
        for t in ts:
            xi = sym('xf', -1e6, 1e6, f32=True, nan=False) if t == 'f' else mki('sym', ('xi' + t,), -INTS[t], INTS[t])
            xd = xi if t == 'f' else mk('i2d', xi)
            s1, yd = k.ok(st, '_fd', o, xd)
            s2, yt = k.ok(st, '_f' + t, o, xi)
            loc = where(m, p + '_f' + t)
            nm = {'f': 'float', 'i': 'int', 's': 'short', 'l': 'long'}[t]
            want = m.e.f32(yd) if t == 'f' else m.e.d2i(yd, {'i': 32, 's': 16, 'l': 64}[t])
            if t == 'f':
                v = decide_eq(conf.gate, [(yt, want)])
            else:
                v = int_eq(conf.gate, yt, want)
            rep.decide('%s: filter<%s> is the conversion of the double result' % (p, nm), '%s/%s' % (p, nm), v, loc)
            c1, c2 = m.cells(s1, o), m.cells(s2, o)
            pr = [(c1[q], c2[q]) for q in c1 if isinstance(c1[q], T) and isinstance(c2.get(q), T)]
            rep.decide('%s: filter<%s> updates the delay line as double does' % (p, nm), '%s/%s/state' % (p, nm), decide_eq(conf.gate, pr), loc)


def int_eq(gate, a, b):
    if a is b or eng.veq(a, b):
        return Verdict(True, 'syntactic')
    if isinstance(a, I) and isinstance(b, I) and a.op == 'd2i' and b.op == 'd2i':
        v = decide_eq(gate, [(a.args[0], b.args[0])])
        if v.ok:
            return v
    # witness search on the integer values
    ts = []
    for x in (a, b):
        if isinstance(x, I):
            isyms_terms(x, set(), set())
    df = bnot(eng.ieq(a, b)) if not (isinstance(a, T) or isinstance(b, T)) else True
    pt = find_point(band(gate, df), n=300)
    if pt is not None:
        return Verdict(False, 'witness', pt_show(pt), 'integer result differs from the truncated double result')
    return Verdict(True, 'sampled')
