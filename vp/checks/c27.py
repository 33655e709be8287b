"""C27 section count and structure"""
from ..lib import *

RULE = ('Summaries of setup for every designer class over a range of template orders and requested orders with unknown parameters: the stage count is ceil(r/2) (r for the band types) and so is the '
        'number of reported pole/zero pairs; per section the values stored for a2 and b2 are either both the constant 0 (first-order) or not identically zero (second-order): exactly one '
        'first-order section for an odd order of the low/high-pass and low/high-shelf types, none otherwise. A section that is the identity for every parameter is a violation.')


def run(rep):
    no = tuple(range(1, 11)) if not rep.thorough() else tuple(range(1, 17))
    no += (17, 18, 33, 40)
    ob = tuple(range(1, 6)) if not rep.thorough() else tuple(range(1, 9))
    cat = [('p%s%s%d' % (f, q, n), f, q, n, None) for f in gen.FAMS for q in gen.KINDS for n in (ob if q.startswith('Band') else no)]
    m = machine(*cparts(cat))
    rep.assume.append('double arithmetic is read as exact real arithmetic (rounding is not modelled)')
    rep.par(m, [(p, lambda p=p, fam=fam, kind=kind, n=n: one(rep, m, p, fam, kind, n)) for p, fam, kind, n, s in cat])
    return rep.finish(600)


def zero(gate, x):
    if x is ZERO:
        return True
    if is_c(x):
        return False
    v = decide_eq(gate, [(x, ZERO)])
    return v.ok and v.how in ('algebraic', 'syntactic')


def one(rep, m, p, fam, kind, n):
    k = K(m, p)
    new, o = k.new()
    name = cname(fam, kind, n)
    band_ = kind.startswith('Band')
    if k.ok(new, '_stages', o)[1] != 0 or k.ok(new, '_npz', o)[1] != 0:
        rep.violate('%s/new' % name, '%s: a new filter reports sections' % name, where(m, p + '_stages'))
    region = regions(fam, kind)[0]
    used, _ = k.ok(new, '_n', o, *vals(fam, kind))
    runs = [(new, '_n', [], n), (used, '_nr', [max(1, n - 1)], max(1, n - 1)), (new, '_nr', [(n + 1) // 2], (n + 1) // 2)]
    if rep.thorough():
        runs += [(used, '_nr', [r], r) for r in range(1, n + 1)]
    for st, op, ex, r in runs:
        def go():
            vs = rsyms(fam, kind, region) if n <= 4 or not band_ and n <= 16 else vals(fam, kind)
            loc = where(m, p + op)
            s, _ = k.ok(st, op, o, *(ex + vs))
            want = r if band_ else (r + 1) // 2
            what = '%s, requested order %d' % (name, r)
            ns, npz = k.ok(s, '_stages', o)[1], k.ok(s, '_npz', o)[1]
            if ns != want or npz != want:
                rep.violate('%s/count' % name, '%s: %s sections and %s pole/zero pairs, expected %d' % (what, ns, npz, want), loc)
                return
            rep.ob('%s has %d sections' % (what, want), 'decided', 2)
            first = []
            for i in range(ns):
                b0, b1, b2, a1, a2 = k.norm(s, o, i)
                z = zero(s.gate, a2), zero(s.gate, b2)
                if all(z):
                    first.append(i)
                    if zero(s.gate, a1) and zero(s.gate, b1):
                        rep.violate('%s/identity' % name, '%s: section %d is constant' % (what, i), loc)
                elif z[0]:
                    rep.violate('%s/order' % name, '%s: section %d has only one pole' % (what, i), loc)
                rep.ob('%s: section %d is of order %d' % (what, i, 1 if all(z) else 2))
            exp = 0 if band_ else r % 2
            if len(first) != exp:
                rep.violate('%s/structure' % name, '%s: %d first-order sections %s, expected %d' % (what, len(first), first, exp), loc)
        rep.guard(name, go)
