"""C13 setup() does not depend on earlier setups"""
import itertools
from ..lib import *

RULE = ('Composition of summaries: setup(Q) analysed on a new object and on the object left by each history class (an earlier setup with unknown, independent '
        'parameters at every order; two of them; each kind of rejected call, alone, repeated, and after an accepted one; each with Q unknown, equal to or different '
        'from the earlier parameters, and Q itself a rejected call) must have the same throw condition, stage count and coefficients. The remaining cells of the '
        'object that differ between the two histories are replaced by unknowns and must not occur in the result, which extends the argument to longer histories.')

BADF = [('NaN', NAN), ('inf', PINF), ('-inf', NINF), ('0.5', C(Fr(1, 2))), ('0.75', C(Fr(3, 4))), ('-0.25', C(Fr(-1, 4)))]
BADV = {'ripple': [('NaN', NAN), ('inf', PINF), ('-1', C(Fr(-1)))], 'stop': [('NaN', NAN), ('inf', PINF), ('-10', C(Fr(-10)))],
        'gain': [('NaN', NAN), ('inf', PINF), ('-inf', NINF)], 'fw': [('NaN', NAN), ('inf', PINF)], 'fc': BADF}


def run(rep):
    orders = (1, 2, 3) if not rep.thorough() else (1, 2, 3, 4, 5)
    cat = catalogue(orders[-1:], states=())
    m = machine(*cparts(cat))
    rep.assume.append('double arithmetic is read as exact real arithmetic (rounding is not modelled); NaN and infinities are propagated where they are given as arguments')
    tasks = []
    for p, fam, kind, n, s in cat:
        rs = regions(fam, kind)
        if fam == 'Butterworth' or (len(rs) == 1):
            rs = [('', {})] + (rs if len(rs) > 1 else [])
        if len(rs) > 6 and not rep.thorough():
            rs = [x for x in rs if x[0] in ('boost/mid', 'cut/upper', 'small/low', 'boost/high')]
        for r2 in orders:
            for j, rg in enumerate(rs):
                if r2 != n and j > 0 and not rep.thorough():
                    continue
                tasks.append(('%s order %d %s' % (p, r2, rg[0]), lambda p=p, fam=fam, kind=kind, n=n, r2=r2, rg=rg, rh=rs[(j + r2) % len(rs)]: good(rep, m, p, fam, kind, n, orders, r2, rg, rh)))
        tasks.append((p + ' rejected', lambda p=p, fam=fam, kind=kind, n=n: bad(rep, m, p, fam, kind, n)))
    tasks.sort(key=lambda t: (not t[0].startswith('pButterworthBandShelf'), 'BandS' not in t[0]))
    rep.par(m, tasks)
    return rep.finish(500)


def outcome(k, st, o, r, Q):
    return k.call(st, '_nr', o, r, *Q)


def compare(rep, k, name, what, o, a, b, key, hist=True):
    """a: summary on the new object, b: on the object with a history (possible under hist)"""
    m = k.m
    loc = where(m, k.p + '_nr')
    ga = a.st.gate if a.st is not None else False
    gb = b.st.gate if b.st is not None else False
    for g, t in ((band(band(hist, a.throw_gate()), gb), 'accepted although a new filter rejects it'),
                 (band(band(hist, ga), b.throw_gate()), 'rejected although a new filter accepts it')):
        w = find_point(g, n=120) if g is not False and feasible(g) else None
        if w is not None:
            rep.violate(key + '/throw', '%s: setup %s is %s' % (name, what, t), loc, pt_show(w))
            return False
    if a.st is None or b.st is None:
        rep.ob('%s: setup %s is rejected as on a new filter' % (name, what), 'syntactic')
        return True
    na, nb = k.ok(a.st, '_stages', o)[1], k.ok(b.st, '_stages', o)[1]
    if na != nb:
        if not (isinstance(na, int) and isinstance(nb, int)):
            raise Incomplete('stage count not determined')
        rep.violate(key + '/stages', '%s: setup %s gives %s stages, a new filter %s' % (name, what, nb, na), loc)
        return False
    g = band(a.st.gate, b.st.gate)
    good = True
    for i in range(na):
        good &= rep.decide('%s: setup %s as on a new filter (stage %d)' % (name, what, i), key,
                           decide_eq(g, list(zip(k.coef(a.st, o, i), k.coef(b.st, o, i))), nsearch=24, retries=200, names=['a0', 'a1', 'a2', 'b0', 'b1', 'b2']), loc)
    return good


def good(rep, m, p, fam, kind, n, orders, r2, rg, rh):
    k = K(m, p)
    name = cname(fam, kind, n)
    st, o = k.new()
    Q = rsyms(fam, kind, rg)
    ref = outcome(k, st, o, r2, Q)
    H1, H2 = rsyms(fam, kind, rg, "'"), rsyms(fam, kind, rg, "''")
    H3 = rsyms(fam, kind, rh, "''")

    def one(h, lab):
        s = st
        for r, P_ in h:
            x = k.call(s, '_nr', o, r, *P_)
            if x.st is None:
                raise Incomplete('history is never accepted')
            s = x.st
        res = outcome(k, s, o, r2, Q)
        if not compare(rep, k, name, lab, o, ref, res, '%s/after' % name):
            return
        # cells that keep a trace of the history must not matter
        if res.st is None or ref.st is None:
            return
        ca, cb = m.cells(ref.st, o), m.cells(res.st, o)
        gg = band(ref.st.gate, res.st.gate)
        diff = [q for q in changed(ca, cb) if isinstance(cb.get(q), T) and not (isinstance(ca.get(q), T) and decide_eq(gg, [(ca[q], cb[q])], nsearch=12, algebra=False).ok)]
        others = [q for q in changed(ca, cb) if not isinstance(cb.get(q), T) and not (isinstance(ca.get(q), P) and isinstance(cb.get(q), P))]
        if others:
            # the trace is in a counter or flag: covered by the longer histories only
            return
        if diff:
            s3, new, old = m.abstract(res.st, o, diff, 'left', nan=False)
            for r3 in ([r2] if r2 > 1 else [r2, orders[-1]]):
                a = outcome(k, st, o, r3, H2)
                b = outcome(k, s3, o, r3, H2)
                compare(rep, k, name, 'of order %d after %s whatever it left behind' % (r3, lab), o, a, b, '%s/after-any' % name)
    for r1 in orders:
        rep.guard(name, one, [(r1, H1)], 'of order %d after one of order %d' % (r2, r1))
    rep.guard(name, one, [(r2, Q)], 'repeated')
    rep.guard(name, one, [(r2, H3)], 'of order %d after one of order %d in another range' % (r2, r2))
    for r1 in orders:
        if r1 != r2:
            rep.guard(name, one, [(r2, H1), (r1, H2)], 'of order %d after ones of order %d and %d' % (r2, r2, r1))
            rep.guard(name, one, [(r2, Q), (r1, Q)], 'of order %d after the same and one of order %d' % (r2, r1))
    # same order, one parameter changed in between
    for i in range(len(Q)):
        x = gen.params(fam, kind)[i]
        if x == 'gain' or r2 == n or rep.thorough():
            P2 = list(Q)
            P2[i] = neg(Q[i]) if x == 'gain' else sub(C(Fr(1, 2)), Q[i]) if x == 'fc' else div(Q[i], C(2))
            rep.guard(name, one, [(r2, P2)], 'of order %d after one with %s %s' % (r2, {'gain': 'the negated', 'fc': 'the mirrored'}.get(x, 'half the'), x))
        P2 = list(Q)
        P2[i] = H1[i]
        rep.guard(name, one, [(r2, P2)], 'of order %d after one with another %s' % (r2, gen.params(fam, kind)[i]))
        rep.guard(name, one, [(r2, Q), (r2, P2)], 'of order %d after the same and one with another %s' % (r2, gen.params(fam, kind)[i]))


def bad(rep, m, p, fam, kind, n):
    k = K(m, p)
    name = cname(fam, kind, n)
    st, o = k.new()
    pn = gen.params(fam, kind)
    Q = rsyms(fam, kind, regions(fam, kind)[0])
    D = rsyms(fam, kind, regions(fam, kind)[0], "'")
    calls = []
    for i, x in enumerate(pn):
        for lab, v in BADV[x]:
            P2 = list(Q)
            P2[i] = v
            calls.append(('%s=%s' % (x, lab), n, P2))
    calls += [('order 0', 0, Q), ('order %d' % (n + 1), n + 1, Q)]
    okref = outcome(k, st, o, n, Q)
    dref = outcome(k, st, o, n, D)

    def one(lab, r, B):
        ref = outcome(k, st, o, r, B)
        # B after B, B after an accepted one, Q after B, other order after B
        sts = [(s, 'rejected ' + lab) for s in ref.throws] + ([(ref.st, 'accepted ' + lab)] if ref.st is not None else [])
        for s, l in sts:
            compare(rep, k, name, '%s after %s' % (lab, l), o, ref, outcome(k, s, o, r, B), '%s/bad-repeat' % name, s.gate)
            compare(rep, k, name, 'after %s' % l, o, okref, outcome(k, s, o, n, Q), '%s/after-bad' % name, s.gate)
            compare(rep, k, name, 'with other values after %s' % l, o, dref, outcome(k, s, o, n, D), '%s/after-bad' % name, s.gate)
        if okref.st is not None:
            r2 = outcome(k, okref.st, o, r, B)
            compare(rep, k, name, '%s after an accepted one' % lab, o, ref, r2, '%s/bad-after' % name)
            for s in r2.throws + ([r2.st] if r2.st is not None else []):
                compare(rep, k, name, 'after an accepted one and %s' % lab, o, okref, outcome(k, s, o, n, Q), '%s/after-bad' % name, s.gate)
    for c in calls:
        rep.guard('%s %s' % (name, c[0]), one, *c)
