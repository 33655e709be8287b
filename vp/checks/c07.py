"""C07 copies are complete and independent"""
from ..lib import *

RULE = ('For every filter class, from an object with unknown coefficients and delay contents: the copy (copy and move construction, assignment) is analysed for '
        '(a) equal stage count, coefficients and future outputs, (b) every operation on one object leaving every cell and query of the other as it was, (c) no access to the '
        'other object after its lifetime has ended (points-to/lifetime events), (d) setup of the copy giving the same coefficients as setup of a new object. '
        'An assigned-to designer filter must have a cleared delay line and satisfy (b)-(d).')


def run(rep):
    orders = (3,) if not rep.thorough() else (1, 2, 3, 4)
    cat = catalogue(orders, states=('LowPass', 'BandStop')) + catalogue((1, 2), states=(), kinds=('LowPass', 'BandStop')) + catalogue((36,), states=(), kinds=('LowPass',))
    S = [('c%d%d' % (n, i), n, s) for n in (1, 3, 18) for i, s in enumerate(gen.STATES)]
    m = machine(*cparts(cat), *[gen.sos(p, n, s) for p, n, s in S], *[gen.rbj('r' + k, k) for k in gen.RBJK])
    rep.assume.append('double arithmetic is read as exact real arithmetic (rounding is not modelled)')
    tasks = []
    for p, fam, kind, n, s in cat:
        def one(p=p, fam=fam, kind=kind, n=n, s=s):
            ps = rsyms(fam, kind, regions(fam, kind)[0], '2')
            v, v2 = vals(fam, kind), [C(Fr(1, 7))] + vals(fam, kind)[1:]
            ops = [('_n', v2), ('_n', ps), ('_nr', [max(1, n - 1)] + v), ('_nr', [n + 1] + v), ('_fd', [real('x')]), ('_reset', [])]
            Pair(rep, m, p, cname(fam, kind, n, s), [('_n', v)], ops, '_coef', True).run()
            if n > 1:
                Pair(rep, m, p, cname(fam, kind, n, s) + ' at order %d' % (n - 1), [('_nr', [n - 1] + v)], ops, '_coef', True).run()
        tasks.append((p, one))
    for p, n, s in S:
        def one(p=p, n=n, s=s):
            Pair(rep, m, p, 'SOSCascade<%d,%s>' % (n, s), None, [('_sos', None), ('_fd', [real('x')]), ('_reset', [])], '_store', False, n).run()
        tasks.append((p, one))
    for kind in gen.RBJK:
        def one(kind=kind):
            v = vals('RBJ', kind)
            Pair(rep, m, 'r' + kind, 'RBJ::' + kind, [('_n', v)], [('_n', psyms('RBJ', kind, '2')), ('_set', [real('q%d' % i) for i in range(6)]), ('_scale', [real('g')]), ('_fd', [real('x')]), ('_reset', [])], '_coef', False, 1).run()
        tasks.append((kind, one))
    rep.par(m, tasks)
    return rep.finish(1000)


class Pair:
    def __init__(self, rep, m, p, name, setup, ops, cop, designer, nst=None):
        self.rep, self.m, self.k, self.name, self.setup, self.ops, self.cop, self.designer, self.nst = rep, m, K(m, p), name, setup, ops, cop, designer, nst

    def target(self, op):
        # the member functions a wrapper calls
        return sorted(x['callee'][1] for b in self.m.p.raw[self.k.p + op]['blocks'] for x in b['i'] if x['op'] in ('call', 'invoke') and x['callee'][0] == 'g' and 'move' not in x['callee'][1])

    def stages(self, st, o):
        return self.k.ok(st, '_stages', o)[1] if self.designer else self.nst

    def coefs(self, st, o):
        n = self.stages(st, o)
        if not isinstance(n, int):
            raise Incomplete('stage count not determined')
        return [c for i in range(n) for c in self.k.coef(st, o, i, self.cop)]

    def prepare(self, st, o, tag):
        """arbitrary coefficients and delay contents"""
        m, k = self.m, self.k
        if self.setup:
            for op, a in self.setup:
                st, _ = k.ok(st, op, o, *a)
        ch = changing(k, st, o)
        if self.designer:
            # only what the getters report is made unknown; design data keeps its meaning
            n = self.stages(st, o)
            cc = set()
            for i in range(n):
                q = k.ok(st, '_at', o, i)[1]
                if isinstance(q, P) and q.obj == o.obj:
                    cc |= {c for c in m.dcells(st, o) if q.off <= c < q.off + 48}
        else:
            cc = {q for q in m.dcells(st, o) if q not in ch}
        st, _, _ = m.abstract(st, o, cc | {q for q in ch if isinstance(m.cells(st, o).get(q), T)}, tag)
        return st

    def args(self, st, op, a):
        if a is None:
            return self.k.darray(st, [real('s%d' % i) for i in range(6 * self.nst)])[1:]
        return a

    def run(self):
        m, k, rep = self.m, self.k, self.rep
        st, a = k.new()
        if not self.designer and self.k.p + '_sos' in m.p.raw:
            st, arr = k.darray(st, [real('s%d' % i) for i in range(6 * self.nst)])
            self.sosarr = arr
        st = self.prepare(st, a, 'a')
        self.base = st
        for ctor in ('_copy', '_move'):
            if k.p + ctor not in m.p.raw or (ctor == '_move' and self.target('_move') == self.target('_copy')):
                continue
            s2, b = k.new(st, ctor, a)
            loc = where(m, k.p + '_copy')
            what = 'copy-constructed' if ctor == '_copy' else 'move-constructed'
            ca, cb = self.coefs(st, a), self.coefs(s2, b)
            if len(ca) != len(cb):
                rep.violate(self.name + '/stages', '%s: the %s filter has another stage count' % (self.name, what), loc)
                continue
            rep.decide('%s: %s filter has the same coefficients' % (self.name, what), self.name + '/coef' + ctor, decide_eq(s2.gate, list(zip(cb, ca))), loc)
            rep.decide('%s: %s filter continues with the same outputs' % (self.name, what), self.name + '/out' + ctor, same_future(m, k, s2, b, st, a, s2.gate), loc)
            if ctor == '_copy':
                bad = changed(m.cells(s2, a), m.cells(st, a))
                if bad:
                    rep.violate(self.name + '/source', '%s: copying changes the source' % self.name, loc)
            self.indep(s2, a, b, what, loc)
        self.assign()

    def indep(self, st, a, b, what, loc):
        m, k, rep = self.m, self.k, self.rep
        for x, y, who in ((a, b, 'the original'), (b, a, 'the copy')):
            cy = m.cells(st, y)
            qy = self.coefs(st, y)
            ny = self.stages(st, y)
            for op, args in self.ops:
                if '%s/alias%s' % (self.name, op) in rep.seen:
                    continue

                def one():
                    r = k.call(st, op, x, *(args if args is not None else [self.sosarr]))
                    for sx in ([r.st] if r.st is not None else []) + r.throws:
                        ch = changed(m.cells(sx, y), cy)
                        if ch:
                            # the cells differ: does it show?
                            if self.stages(sx, y) != ny:
                                v = Verdict(False, 'witness', None, 'stage count changes')
                            else:
                                v = decide_eq(sx.gate, list(zip(self.coefs(sx, y), qy)))
                                if v.ok:
                                    v = same_future(m, k, sx, y, st, y, sx.gate)
                                if v.ok and self.designer:
                                    v = self.setup_same(sx, y)
                        else:
                            nn = self.stages(sx, y)
                            v = decide_eq(sx.gate, list(zip(self.coefs(sx, y), qy))) if nn == ny else Verdict(False, 'witness', None, 'stage count changes')
                        rep.decide('%s: %s on %s does not influence the %s partner' % (self.name, op[1:], who, what), '%s/alias%s' % (self.name, op), v, where(m, k.p + op))
                rep.guard(self.name + op, one)
            # lifetime: y is gone
            def life():
                s = st.fork(st.gate)
                if k.p + '_del' in m.p.raw:
                    s, _ = k.ok(s, '_del', y)
                    s = s.fork(s.gate)
                o = s.wobj(y.obj)
                o.kind = 'freed'
                m.e.events = []
                for op, args in self.ops:
                    r = k.call(s, op, x, *(args if args is not None else [self.sosarr]))
                    if r.st is not None and (self.designer or op != '_set'):
                        self.coefs(r.st, x)
                ev = [e for e in events(m) if e[0] in ('use-after-free', 'dangling', 'double-free')]
                if ev:
                    rep.violate('%s/lifetime' % self.name, '%s: %s after the other object was destroyed: %s in %s' % (self.name, ev[0][0], ev[0][2], m.p.raw[ev[0][4]]['dem'] if ev[0][4] else '?'), ev[0][3])
                else:
                    rep.ob('%s: %s partner may be destroyed' % (self.name, what), 'lifetime')
            rep.guard(self.name + ' lifetime', life)
        # setup of the copy
        rep.guard(self.name, lambda: rep.decide('%s: setup of the %s filter works like on a new one' % (self.name, what), self.name + '/setup', self.setup_same(st, b), loc))

    def setup_same(self, st, y):
        m, k = self.m, self.k
        for op, args in self.ops:
            if op not in ('_n', '_nr', '_sos') or args is not None and args[0] == k_over(args):
                continue
            a = args if args is not None else [self.sosarr]
            r = k.call(st, op, y, *a)
            s0, f = k.new(st)
            r0 = k.call(s0, op, f, *a)
            if r0.st is None:
                continue
            if r.st is None or self.stages(r.st, y) != self.stages(r0.st, f):
                return Verdict(False, 'witness', None, '%s after copying gives another stage count or fails' % op)
            v = decide_eq(band(r.st.gate, r0.st.gate), list(zip(self.coefs(r.st, y), self.coefs(r0.st, f))))
            if not v.ok:
                return v
        return Verdict(True, 'algebraic')

    def assign(self):
        m, k, rep = self.m, self.k, self.rep
        for op in ('_assign', '_moveassign'):
            if k.p + op not in m.p.raw or (op == '_moveassign' and self.target(op) == self.target('_assign')):
                continue
            st, t = k.new(self.base)
            if self.setup:
                ps = self.setup[0][1]
                st, _ = k.ok(st, '_n', t, *[C(Fr(1, 9)) if i == 0 else x for i, x in enumerate(ps if self.setup[0][0] == '_n' else ps[1:])])
            fresh = st
            st = self.prep2(st, t)
            a = P(list(x for x in [self.a_of()])[0].obj, 0)
            r = k.call(st, op, t, a)
            loc = where(m, k.p + op)
            if r.st is None or r.throws:
                rep.violate(self.name + '/assign', '%s: assignment does not return normally' % self.name, loc)
                continue
            s2 = r.st
            if self.designer:
                # cleared delay line: same future as after an explicit reset
                s3, _ = k.ok(s2, '_reset', t)
                rep.decide('%s: assigned-to filter has a cleared delay line' % self.name, self.name + '/assign-reset', same_future(m, k, s2, t, s3, t, s2.gate), loc)
            else:
                rep.decide('%s: assigned filter has the coefficients of the source' % self.name, self.name + '/assign-coef', decide_eq(s2.gate, list(zip(self.coefs(s2, t), self.coefs(s2, a)))), loc)
            if op == '_assign' and changed(m.cells(s2, a), m.cells(st, a)):
                rep.violate(self.name + '/assign-source', '%s: assignment changes the source' % self.name, loc)
            self.indep(s2, a, t, 'assigned' if op == '_assign' else 'move-assigned', loc)
            # self-assignment leaves a usable object
        return

    def a_of(self):
        # the source object of self.base: the only object of this class in it
        for oid, o in self.base.mem.items():
            if o.name == self.k.p:
                return P(oid, 0)

    def prep2(self, st, t):
        m, k = self.m, self.k
        ch = changing(k, st, t)
        st, _, _ = m.abstract(st, t, {q for q in ch if isinstance(m.cells(st, t).get(q), T)}, 't')
        return st


def k_over(args):
    return None
