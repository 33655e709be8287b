"""C11 setup overloads agree"""
from ..lib import *

RULE = ('Sibling agreement: for each of the 31 designer classes the summaries of setup(fs, ...), setupN(...) (and of the overloads with an explicit order) are '
        'computed for the same unknown parameters, frequencies divided by the unknown sampling rate; the stage counts, every coefficient and the throw '
        'conditions must be the same functions of the parameters.')
FREQ = ('fc', 'fw')


def run(rep):
    # one even and one odd order; the overloads themselves are generic in the order
    orders = (1, 2) if not rep.thorough() else (1, 2, 3, 4)
    cat = catalogue(orders, states=())
    m = machine(*cparts(cat), *[gen.rbj('r' + k, k) for k in gen.RBJK])
    rep.assume.append('double arithmetic is read as exact real arithmetic (rounding is not modelled)')
    tasks = [(p, lambda p=p, fam=fam, kind=kind, n=n: one(rep, m, p, fam, kind, n)) for p, fam, kind, n, s in cat]
    tasks += [('r' + k, lambda k=k: one(rep, m, 'r' + k, 'RBJ', k, 0)) for k in gen.RBJK]
    rep.par(m, tasks)
    return rep.finish(250)


def one(rep, m, p, fam, kind, n):
    k = K(m, p)
    name = cname(fam, kind, n) if n else 'RBJ::' + kind
    st, o = k.new()
    pn = gen.params(fam, kind)
    fs = psym('fs')
    absf = {}
    A, N = [], []
    for x in pn:
        if x in FREQ:
            F = sym('F' + x, -INF, INF, nan=False)
            A.append(F)
            N.append(div(F, fs))
        else:
            v = psym(x) if n else real(x)       # RBJ classes take any value
            A.append(v)
            N.append(v)
    ref = k.call(st, '_n', o, *N)
    variants = [('_s', [fs] + A)]
    if n:
        variants += [('_sr', [n, fs] + A), ('_nr', [n] + N)]
        if n > 1:
            compare(rep, k, name, o, k.call(st, '_nr', o, n - 1, *N), k.call(st, '_sr', o, n - 1, fs, *A), '_sr', '_nr (order %d)' % (n - 1), n)
    for op, args in variants:
        r = k.call(st, op, o, *args)
        compare(rep, k, name, o, ref, r, op, '_n', n)


def compare(rep, k, name, o, a, b, op, refop, n):
    m = k.m
    loc = where(m, k.p + op)
    key = '%s/%s' % (name, op)
    tag = '%s: %s%s agrees with %s' % (name, {'_s': 'setup(fs,..)', '_sr': 'setup(order,fs,..)', '_nr': 'setupN(order,..)'}[op], '', refop[1:])
    ta, tb = a.throw_gate(), b.throw_gate()
    for g in (band(ta, bnot(tb)), band(tb, bnot(ta))):
        w = find_point(g) if g is not False and feasible(g) else None
        if w is not None:
            rep.violate(key + '/throw', '%s: only one of the two throws' % tag, loc, pt_show(w))
        else:
            rep.ob(tag + ' on rejection', 'excluded' if not feasible(g) else 'no witness')
    if a.st is None or b.st is None:
        if (a.st is None) != (b.st is None):
            rep.violate(key + '/throw', '%s: only one of the two returns' % tag, loc)
        return
    na = nb = 1
    if n:
        na, nb = k.ok(a.st, '_stages', o)[1], k.ok(b.st, '_stages', o)[1]
        if na != nb:
            if isinstance(na, int) and isinstance(nb, int):
                rep.violate(key + '/stages', '%s: %s stages against %s' % (tag, nb, na), loc)
                return
            raise Incomplete('stage count not determined')
    g = band(a.st.gate, b.st.gate)
    for i in range(na):
        rep.decide('%s (stage %d)' % (tag, i), key, decide_eq(g, list(zip(k.coef(b.st, o, i), k.coef(a.st, o, i))), names=['a0', 'a1', 'a2', 'b0', 'b1', 'b2']), loc)
