"""C06 no shared mutable state"""
from ..lib import *
from ..pointsto import *

RULE = ('Write effects on static storage: inclusion-based points-to analysis over every function reachable from the public entry points (all blocks, exceptional '
        'ones included); a store, copy or external call whose target may be a writable global, function-static or thread-local object is a violation, except '
        'inside the guarded one-time initialisation of that object. In addition, per class, the abstract summaries of all operations on object A leave every '
        'cell of a separately constructed B unchanged and A holds pointers only into itself.')
OPS = ('_new', '_newsos', '_del', '_copy', '_assign', '_move', '_moveassign', '_fd', '_ff', '_fi', '_reset', '_n', '_nr', '_s', '_sr', '_sos', '_resp', '_set', '_scale', '_ident', '_one', '_two', '_pzp', '_pz1',
       '_coef', '_stages', '_store', '_smax', '_pz', '_npz', '_bpz', '_bps', '_round', '_at', '_f', '_bf')


def run(rep):
    cat = catalogue((3,))
    S = [('c2%d' % i, 2, s) for i, s in enumerate(gen.STATES)]
    m = machine(*cparts(cat), *[gen.sos(p, n, s) for p, n, s in S], *[gen.rbj('r' + k, k) for k in gen.RBJK], gen.biquad('bq'), gen.onepole('op'), gen.twopole('tp'),
                *[gen.state('s%d' % i, s) for i, s in enumerate(gen.STATES)],
                'static Iir::Biquad pos_b; static double pos_d; thread_local double pos_t;\n'
                'void pos_1() { pos_b.setIdentity(); }\nvoid pos_2() { double *p = &pos_d; *p = 1; }\nvoid pos_3() { pos_t = 2; }\nvoid pos_4() { static int n; ++n; }\n'
                'double neg_1() { static const double k = std::sqrt((double)(long)&pos_d); return k; }\n'
                'double neg_2() { static const Iir::Biquad k; return k.m_b1; }\n')
    for i in range(1, 5):
        if not PointsTo(m.p, ['pos_%d' % i]).writes:
            raise Broken('rule does not match its positive example %d' % i)
    for i in range(1, 3):
        if PointsTo(m.p, ['neg_%d' % i]).writes:
            raise Broken('rule matches its negative example %d' % i)
    pre = [p for p, *_ in cat] + [p for p, *_ in S] + ['r' + k for k in gen.RBJK] + ['bq', 'op', 'tp', 's0', 's1', 's2']
    roots = [p + o for p in pre for o in OPS if p + o in m.p.raw]
    pt = PointsTo(m.p, roots)
    rep.functions |= set(pt.fns)
    for f in pt.fns:
        rep.ob('no static write in %s' % m.p.raw[f]['dem'], 'effect')
    rep.cover.update(roots=len(roots), memory_sites=pt.sites)
    for g, f, loc in pt.writes:
        gl = m.p.globals.get(g, {})
        rep.violate('static/%s' % gl.get('dem', g), '%s (static storage, declared at %s) is written in %s at %s, reachable through %s' % (
            gl.get('dem', g), gl.get('loc', '?'), m.p.raw[f]['dem'], loc, ' -> '.join(a for a, _ in pt.g.path(pt.par, f))), loc)
    for c, f, loc in pt.stateful:
        rep.violate('stateful/%s' % c, '%s keeps process-wide state and is called in %s at %s' % (c, m.p.raw[f]['dem'], loc), loc)
    # per-object effects
    rep.par(m, [(p, lambda p=p: pair(rep, m, p, cat, S)) for p in [x for x, *_ in cat] + [x for x, *_ in S] + ['r' + k for k in gen.RBJK]])
    return rep.finish(400)


def pair(rep, m, p, cat, S):
    k = K(m, p)
    st, a = k.new()
    st, b = k.new(st)
    ops = []
    virgin = st
    d = [c for c in cat if c[0] == p]
    if d:
        _, fam, kind, n, s = d[0]
        v = vals(fam, kind)
        st, _ = k.ok(st, '_n', b, *v)
        ops = [('_n', v), ('_nr', [1] + v), ('_n', rsyms(fam, kind, regions(fam, kind)[0])), ('_nr', [n + 1] + v)]
    elif p.startswith('r'):
        v = vals('RBJ', p[1:])
        st, _ = k.ok(st, '_n', b, *v)
        ops = [('_n', v), ('_n', psyms('RBJ', p[1:]))]
    else:
        n = [c for c in S if c[0] == p][0][1]
        st, arr = k.darray(st, [real('s%d' % i) for i in range(6 * n)])
        ops = [('_sos', [arr])]
    ops += [('_fd', [real('x')]), ('_ff', [real('x')]), ('_reset', [])]
    st, _, _ = m.abstract(st, b, list(m.dcells(st, b)), 'b')
    cb = m.cells(st, b)
    base = st
    for op, args in [(o, v) for o, v in ops if any(isinstance(t, T) and syms_of(t) for t in v)]:
        statics(rep, m, k.call(virgin, op, a, *args), p + op)
    for op, args in ops:
        r = k.call(st, op, a, *args)
        statics(rep, m, r, p + op)
        for sx in ([r.st] if r.st is not None else []) + r.throws:
            ch = changed(m.cells(sx, b), cb)
            if ch:
                rep.violate('%s/%s' % (p, op), '%s on one object changes cells at offsets %s of another object' % (where(m, p + op), sorted(ch)[:6]), where(m, p + op))
            else:
                rep.ob('%s: %s leaves other objects alone' % (p, op), 'cells')
            for q, v in m.cells(sx, a).items():
                for o in ptrs(v):
                    if o in (b.obj,):
                        rep.violate('%s/pointer' % p, '%s stores a pointer into another object at offset %d' % (where(m, p + op), q), where(m, p + op))
        if r.st is not None:
            st = r.st.fork(base.gate) if r.st.gate is not base.gate else r.st


def ptrs(v):
    if isinstance(v, P):
        return [v.obj]
    if isinstance(v, IV):
        return ptrs(v.a) + ptrs(v.b)
    return []


def statics(rep, m, r, w):
    """no object of static storage may keep a value derived from arguments"""
    for sx in ([r.st] if r.st is not None else []) + r.throws:
        for g, ob in sx.mem.items():
            if g[0] == '@' and ob.kind == 'global':
                for q, (sz, v) in ob.cells.items():
                    if isinstance(v, T) and syms_of(v):
                        gl = m.p.globals.get(ob.name, {})
                        rep.violate('static/%s' % gl.get('dem', ob.name), '%s (static storage, %s) keeps a value derived from the arguments of %s' % (gl.get('dem', ob.name), gl.get('loc'), where(m, w)), gl.get('loc'))
