"""Shared machinery of the checks: objects under analysis and common specifications."""
from . import gen, model, terms as t_
from .model import *
from .terms import *

PARAM_RANGE = {'fc': (0.0, 0.5, True, True), 'fw': (0.0, 0.5, True, True), 'gain': (-300.0, 300.0, True, True), 'ripple': (1e-5, 100.0, False, False),
               'stop': (0.01, 300.0, False, False), 'q': (0.0, 1000.0, True, False), 'Q': (0.0, 1e9, True, False), 'slope': (0.0, 1.0, True, False), 'bw': (0.0, 10.0, True, False),
               'fs': (1e-3, 1e9, True, False)}


def psym(name, tag=''):
    lo, hi, lop, hop = PARAM_RANGE[name]
    return sym(name + tag, lo, hi, lopen=lop, hopen=hop, nan=False)


def roots(k, st, o):
    """what getPoleZeros() reports"""
    n = k.ok(st, '_npz', o)[1]
    if not isinstance(n, int):
        raise Incomplete('number of poles and zeros not determined')
    return [c for i in range(n) for c in k.arr(st, o, '_pz', 8, i)[0]]


def real(name):
    return sym(name, -INF, INF, nan=False)


class K:
    """one analysed class, accessed through its generated wrappers"""

    def __init__(self, m, p):
        self.m, self.p = m, p
        r = m.ok(m.state(), p + '_size')
        self.size = r[1]

    def new(self, st=None, ctor='_new', *a):
        m = self.m
        st = st.fork(st.gate) if st is not None else m.state()
        o = m.alloc(st, self.size, self.p)
        st, _ = m.ok(st, self.p + ctor, o, *a)
        return st, o

    def call(self, st, op, *a):
        return self.m.call(st, self.p + op, *a)

    def ok(self, st, op, *a):
        return self.m.ok(st, self.p + op, *a)

    def admit(self, rep, st, op, o, args, name, key):
        """call with admissible arguments: it has to be accepted.  (state, value), or None after a violation"""
        r = self.call(st, op, o, *args)
        g = r.throw_gate()
        for a in r.aborts:
            g = bor(g, a[0])
        w = find_point(g, n=60) if g is not False else None
        if w is not None:
            rep.violate(key + '/rejected', '%s: admissible parameters are rejected' % name, where(self.m, self.p + op), pt_show(w))
            return None
        if r.st is None:
            raise Incomplete('no normal outcome')
        return r.st, r.val

    def defined(self, rep, gate, cs, op, name, key):
        """are the coefficients computed without leaving the reals (no NaN) for admissible parameters?"""
        cs = [x for c in cs for x in c]

        def off(e):
            for x in cs:
                u = e.ev(x)
                if mp.isnan(u) or mp.isinf(u):
                    return True
            # values the coefficients are computed from (branch conditions may look at the other branch's values)
            seen, todo = set(), list(cs)
            while todo:
                t = todo.pop()
                if t.id in seen:
                    continue
                seen.add(t.id)
                u = e.m.get(t.id)
                if isinstance(u, mp.mpc) and abs(u.imag) > mp.mpf(10) ** -12 * abs(u) and abs(u.imag) > mp.mpf(10) ** -20:
                    return True
                if t.op == 'ite':
                    todo.append(t.args[1] if e.cond(t.args[0]) else t.args[2])
                else:
                    todo += [x for x in t.args if isinstance(x, T)]
            return False
        w = find_point(gate, extra=cs, n=40, pred=off)
        if w is not None:
            with mp.workdps(400):
                try:
                    ok = off(MpEval(dict(w)))
                except Undefined:
                    ok = False
            if ok:
                rep.violate(key + '/undefined', '%s: the coefficients are not real numbers for admissible parameters' % name, where(self.m, self.p + op), pt_show(w))
                return False
        rep.ob('%s: coefficients are real for admissible parameters' % name, 'no witness')
        return True

    def arr(self, st, o, op, n, *a):
        """call op(o, *a, double *out) and read n doubles"""
        st = st.fork(st.gate)
        b = self.m.alloc(st, 8 * n, 'out')
        s2, _ = self.m.ok(st, self.p + op, o, *(list(a) + [b]))
        return [s2.mem[b.obj].cells[8 * i][1] for i in range(n)], s2

    def coef(self, st, o, i=0, op='_coef'):
        return self.arr(st, o, op, 6, i)[0]

    def norm(self, st, o, i=0, op='_coef'):
        """normalised (b0,b1,b2,a1,a2) of stage i as the getters report them"""
        a0, a1, a2, b0, b1, b2 = self.coef(st, o, i, op)
        return [div(x, a0) for x in (b0, b1, b2, a1, a2)]

    def darray(self, st, vals, name='in'):
        st = st.fork(st.gate)
        b = self.m.alloc(st, 8 * len(vals), name)
        o = st.wobj(b.obj)
        for i, v in enumerate(vals):
            o.cells[8 * i] = (8, v)
        return st, b

    def split(self, st, o, op='_fd', tag='any'):
        """(delay cells, read cells): offsets the filter operation changes / depends on"""
        st, new, old = self.m.abstract(st, o, list(self.m.dcells(st, o)), tag)
        x = real('x?')
        before = self.m.cells(st, o)
        s2, y = self.ok(st, op, o, x)
        after = self.m.cells(s2, o)
        ch = changed(before, after)
        sy = syms_of(y)
        for k in ch:
            if isinstance(after[k], T):
                sy |= syms_of(after[k])
        rd = {k for k, s in new.items() if s in sy}
        return ch, rd


def steps(k, st, o, xs, op='_fd', *extra):
    ys = []
    for x in xs:
        st, y = k.ok(st, op, o, *(list(extra) + [x]))
        ys.append(y)
    return st, ys


def sop(xs):
    r = ZERO
    for a, b in xs:
        r = add(r, mul(a, b))
    return r


def recursion(c, xs, ys, n, zero=True):
    """b0 x[n]+b1 x[n-1]+b2 x[n-2]-a1 y[n-1]-a2 y[n-2] with zero history"""
    b0, b1, b2, a1, a2 = c

    def g(v, i):
        return v[i] if i >= 0 else ZERO
    return sub(sop([(b0, g(xs, n)), (b1, g(xs, n - 1)), (b2, g(xs, n - 2))]), sop([(a1, g(ys, n - 1)), (a2, g(ys, n - 2))]))


def chain(cs, xs):
    """outputs of cascaded zero-state recursions"""
    for c in cs:
        ys = []
        for n in range(len(xs)):
            ys.append(recursion(c, xs, ys, n))
        xs = ys
    return xs


def polymul(p, q):
    r = [ZERO] * (len(p) + len(q) - 1)
    for i, a in enumerate(p):
        for j, b in enumerate(q):
            r[i + j] = add(r[i + j], mul(a, b))
    return r


def prodpoly(cs):
    B, A = [ONE], [ONE]
    for b0, b1, b2, a1, a2 in cs:
        B = polymul(B, [b0, b1, b2])
        A = polymul(A, [ONE, a1, a2])
    return B, A


def nonzero_a0(t):
    return bnot(eng.c_eq(t, ZERO))


def events(m, kinds=None):
    return [e for e in m.e.events if feasible(e[1]) and (kinds is None or e[0] in kinds)]


def intcells(m, st, o):
    r = {}
    for k, v in m.cells(st, o).items():
        if not isinstance(v, T):
            r[k] = v
    return r


def machine(*parts, flags=(), budget=60000000):
    prog = compile_ir(gen.unit(*parts), flags)
    return Machine(prog, budget)


def changing(k, st, o, op='_fd', extra=()):
    """cells one filter call changes when every double cell is arbitrary"""
    s, new, old = k.m.abstract(st, o, list(k.m.dcells(st, o)), 'any')
    before = k.m.cells(s, o)
    s2, y = k.ok(s, op, o, *(list(extra) + [real('x?')]))
    return changed(before, k.m.cells(s2, o))


def configs(k, st, o, op='_fd', extra=(), limit=40):
    """reachable control configurations (integer/pointer cells) of the delay state under
    filter calls; a running counter is widened to its whole range.  Yields (state, label)."""
    m = k.m
    conf, seen, hist = st, set(), []
    for j in range(limit):
        cells = m.cells(conf, o)
        sy = {q: v for q, v in cells.items() if isinstance(v, (I, IV))}
        if sy:
            yield widen(m, conf, o, sy.keys()), 'any data-dependent counter'
            return
        ic = tuple(sorted((q, v if isinstance(v, int) else str(v)) for q, v in cells.items() if not isinstance(v, T)))
        if ic in seen:
            return
        seen.add(ic)
        hist.append(dict(ic))
        yield conf, 'control state %d' % j
        conf, _ = steps(k, conf, o, [real('x?')], op, *extra)
    var = [q for q in hist[0] if any(h[q] != hist[0][q] for h in hist)]
    if not all(isinstance(hist[0][q], int) for q in var):
        raise Incomplete('delay-line control state does not close')
    yield widen(m, conf, o, var), 'any value of the sample counter'


def widen(m, st, o, offs):
    st = st.fork(st.gate)
    ob = st.wobj(o.obj)
    for q in offs:
        sz, v = ob.cells[q]
        if isinstance(v, IV):
            raise Incomplete('data-dependent pointer in the delay line')
        lo = irange(v)[0]
        ob.cells[q] = (sz, mki('sym', ('ctr%s@%d.%d' % ('+' if lo >= 0 else '', q, sz),), 0 if lo >= 0 else -(1 << (8 * sz - 1)), (1 << (8 * sz - 1)) - 1001))
    return st


def where(m, wrapper, pick=''):
    """repo function behind a driver wrapper, with file:line"""
    r = m.p.raw.get(wrapper)
    if r is None or r['decl']:
        return wrapper
    for b in r['blocks']:
        for x in b['i']:
            if x['op'] in ('call', 'invoke') and x['callee'][0] == 'g':
                f = m.p.raw.get(x['callee'][1])
                if f and 'Iir::' in f['dem'] and not f['decl'] and pick in f['dem']:
                    return '%s (%s)' % (f['dem'], f.get('loc', '?'))
    return wrapper


def same_future(m, k, sa, oa, sb, ob, gate, n=5, op='_fd', extra=()):
    """do two object states behave identically under filter()?  Equal delay/coefficient cells decide it
    for every continuation; otherwise the next n outputs and the cells left by them are compared."""
    ca, cb = m.cells(sa, oa), m.cells(sb, ob)
    diff = [q for q in changed(ca, cb) if not (isinstance(ca.get(q), P) and isinstance(cb.get(q), P))]
    pairs = [(ca[q], cb[q]) for q in diff if isinstance(ca.get(q), T) and isinstance(cb.get(q), T)]
    if not diff:
        return Verdict(True, 'syntactic')
    if len(pairs) == len(diff):
        v = decide_eq(gate, pairs)
        if v.ok:
            return v
    xs = [real('x%d' % j) for j in range(n)]
    _, ya = steps(k, sa, oa, xs, op, *extra)
    _, yb = steps(k, sb, ob, xs, op, *extra)
    return decide_eq(gate, list(zip(ya, yb)), names=['output %d' % i for i in range(n)])


def catalogue(orders=(3,), states=('LowPass', 'BandStop'), fams=gen.FAMS, kinds=gen.KINDS):
    """[(prefix, family, kind, order, state)] of IIR designer instances"""
    r = []
    for fam in fams:
        for kind in kinds:
            for n in orders:
                for s in (gen.STATES if kind in states else [None]):
                    r.append(('p%s%s%d%s' % (fam, kind, n, s or ''), fam, kind, n, s))
    return r


def cparts(cat):
    return [gen.pole(p, fam, kind, n, s) for p, fam, kind, n, s in cat]


def cname(fam, kind, n, s=None):
    return '%s::%s<%d%s>' % (fam, kind, n, ',' + s if s else '')


VALS = {'fc': (1, 5), 'fw': (1, 10), 'gain': (6, 1), 'ripple': (1, 1), 'stop': (40, 1), 'q': (1, 1), 'slope': (1, 2), 'bw': (1, 1), 'fs': (1000, 1)}


def vals(fam, kind, **kw):
    return [C(Fr(*kw.get(x, VALS[x]))) for x in gen.params(fam, kind)]


def psyms(fam, kind, tag=''):
    return [psym('Q' if fam == 'RBJ' and kind != 'IIRNotch' and x == 'q' else x, tag) for x in gen.params(fam, kind)]


# parameter regions on which the conditionals inside the designs are decided
R_SHELF = [('boost', {'gain': (12.0, 300.0), 'ripple': (0.001, 12.0), 'stop': (0.1, 12.0)}), ('cut', {'gain': (-300.0, -12.0), 'ripple': (0.001, 12.0), 'stop': (0.1, 12.0)}),
           ('small', {'gain': (0.0, 6.0), 'ripple': (6.0, 100.0), 'stop': (6.0, 300.0)})]
R_BAND = [('mid', {'fc': (0.2, 0.25), 'fw': (0.0, 0.3)}), ('upper', {'fc': (0.25, 0.3), 'fw': (0.0, 0.3)}), ('low', {'fc': (0.0, 0.02), 'fw': (0.1, 0.3)}),
          ('high', {'fc': (0.48, 0.5), 'fw': (0.1, 0.3)})]


def regions(fam, kind, band=True, clamp=True):
    rs = [('', {})]
    if 'Shelf' in kind and fam != 'Butterworth':
        rs = R_SHELF
    if kind.startswith('Band') and band:
        rs = [((a + '/' + b).strip('/'), dict(x, **y)) for a, x in rs for b, y in (R_BAND if clamp else R_BAND[:2])]
    return rs


def rsyms(fam, kind, region, tag=''):
    lab, d = region
    r = []
    for x in gen.params(fam, kind):
        if x in d:
            lo, hi = d[x]
            r.append(sym('%s%s~%s' % (x, tag, lab), lo, hi, lopen=True, hopen=True, nan=False))
        else:
            r.append(psym(x, tag))
    return r
