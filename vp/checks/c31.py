"""C31 independence from the compiler settings of the application"""
from ..lib import *
from .c26 import Pair, pole, rbj, sos, biq, cascade

RULE = ('The library and a driver using every class are compiled in the reference setting (C++11, NDEBUG) and in others (assertions of the library or of the standard library enabled, optimised, C++17, C++20, exceptions support and RTTI unchanged); '
        'object sizes must be equal, and for the same public calls with the same unknown or odd arguments the conditions for a throw and for stopping the program, the results and every '
        'data cell of the object, offset by offset, must be equal in both builds.')

SET = [('assertions enabled', ('-UNDEBUG',), 'c++11'), ('standard library assertions', ('-D_GLIBCXX_ASSERTIONS',), 'c++11'), ('C++17', (), 'c++17'), ('C++20', (), 'c++20'), ('optimisation', ('-O2', '-Xclang', '-disable-llvm-passes'), 'c++11')]


def run(rep):
    orders = (1, 3) if not rep.thorough() else (1, 2, 3, 4, 5)
    cat = catalogue(orders, states=())
    parts = cparts(cat)
    parts += [gen.rbj('r' + x, x) for x in gen.RBJK]
    so = [('s%d%s' % (n, s), n, s) for n in (1, 3) for s in gen.STATES]
    parts += [gen.sos(*x) for x in so]
    bq = [('o1', 'OnePole'), ('o2', 'TwoPole'), ('bq', 'Biquad')]
    parts += [gen.onepole('o1'), gen.twopole('o2'), gen.biquad('bq'), gen.rawcascade('ca')]
    st = [('t' + s, s) for s in gen.STATES]
    parts += [gen.state(*x) for x in st]
    ma = machine(*parts)
    tasks = []
    rep.assume.append('one compiler (clang) with its default target and standard library')
    text = gen.unit(*parts)
    for lab, flags, std in SET:
        mb = Machine(compile_ir(text, flags, std=std))
        for p in [x[0] for x in cat] + ['r' + x for x in gen.RBJK] + [x[0] for x in so] + [x[0] for x in bq] + ['ca'] + [x[0] for x in st]:
            a, b = ma.ok(ma.state(), p + '_size')[1], mb.ok(mb.state(), p + '_size')[1]
            if a != b:
                rep.violate('size/%s' % p, '%s has %s bytes in the reference build and %s with %s' % (p, a, b, lab), p)
            else:
                rep.ob('%s has %d bytes in both builds (%s)' % (p, a, lab), 'constant')
        for p, fam, kind, n, s in cat:
            tasks.append(('%s %s' % (p, lab), lambda p=p, fam=fam, kind=kind, n=n, mb=mb, lab=lab: pole(Pair(rep, ma, mb, p, cname(fam, kind, n), lab), fam, kind, n)))
        for x in gen.RBJK:
            tasks.append(('r%s %s' % (x, lab), lambda x=x, mb=mb, lab=lab: rbj(Pair(rep, ma, mb, 'r' + x, 'RBJ::' + x, lab), x)))
        for p, n, s in so:
            tasks.append(('%s %s' % (p, lab), lambda p=p, n=n, s=s, mb=mb, lab=lab: sos(Pair(rep, ma, mb, p, 'SOSCascade<%d,%s>' % (n, s), lab), n)))
        for p, nm in bq:
            tasks.append(('%s %s' % (p, lab), lambda p=p, nm=nm, mb=mb, lab=lab: biq(Pair(rep, ma, mb, p, nm, lab))))
        tasks.append(('ca ' + lab, lambda mb=mb, lab=lab: cascade(Pair(rep, ma, mb, 'ca', 'Cascade', lab))))
    rep.par(ma, tasks)
    return rep.finish(3000)
