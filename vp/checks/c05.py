"""C05 real-time safety of construction, setup, filtering, reset and response"""
from ..lib import *
from ..callgraph import *

RULE = ('Who-may-call rule over the resolved call graph of the IR (templates instantiated for every class, order and delay-line type listed), with '
        'paths that can only end in a throw removed: nothing reachable from constructors, filter, reset, setup/setupN and response may allocate or free, '
        'throw-and-catch, perform I/O, take a lock, touch atomics, call through an unresolved pointer or recurse; only arithmetic library functions may be '
        'called outside the analysed code. filter/reset must in addition not be able to throw and every loop in them must have a bound independent of the data.')
OKEXT = eng.PURE_EXT | {'__powidf2', 'fesetround', 'sincosf', '__stack_chk_fail', 'nan', 'nextafter', 'llrint', 'llround', '__isnanl', '__isnanf', '__isinff', '__finitef', '__signbit', '__fpclassify', 'nanf', 'cpowf', 'cargf', 'tgamma', 'lgamma', 'erf', 'erfc', 'sinl', 'cosl'} | {x + 'l' for x in eng.LIBM1} | {x + 'l' for x in eng.LIBM2}


def run(rep):
    cat = catalogue((1, 2, 3, 8)) + catalogue((40,), states=())
    S = [('c%d%d' % (n, i), n, s) for n in (1, 4, 20) for i, s in enumerate(gen.STATES)]
    m = machine(*cparts(cat), *[gen.sos(p, n, s) for p, n, s in S], *[gen.rbj('r' + k, k) for k in gen.RBJK], gen.biquad('bq'), gen.onepole('op'), gen.twopole('tp'),
                *[gen.state('s%d' % i, s) for i, s in enumerate(gen.STATES)],
                'void pos_alloc() { delete new Iir::Biquad; }\nvoid pos_lock() { static Iir::Biquad b[1] = {}; static double d = std::log((double)(long)b); b[0].m_a0 = d; }\n')
    g = Graph(m.p)
    pre = {p: ('designer', n) for p, _, _, n, _ in cat}
    pre.update({p: ('sos', n) for p, n, _ in S})
    pre.update({'r' + k: ('rbj', 1) for k in gen.RBJK})
    pre.update({'bq': ('bq', 1), 'op': ('bq', 1), 'tp': ('bq', 1)})
    pre.update({'s%d' % i: ('st', 1) for i in range(3)})
    hot, cold = [], []
    for p in pre:
        for op in ('_fd', '_ff', '_fi', '_reset', '_f', '_bf'):
            if p + op in m.p.raw:
                hot.append(p + op)
        for op in ('_new', '_newsos', '_copy', '_assign', '_n', '_nr', '_s', '_sr', '_sos', '_resp', '_set', '_scale', '_ident', '_one', '_two', '_coef', '_stages', '_store', '_smax'):
            if p + op in m.p.raw:
                cold.append(p + op)
    # the rule must match its positive examples
    if not bad(m, g, ['pos_alloc']) or not bad(m, g, ['pos_lock'], True):
        raise Broken('rule does not match its positive example')
    for roots, ishot, kind in ((hot, True, 'filter/reset'), (cold, False, 'construct/setup/query')):
        par = g.reach(roots)
        for r in roots:
            rep.ob('%s: %s' % (kind, r), 'root')
        for n in par:
            f = m.p.raw.get(n)
            rep.ob('callee %s' % (f['dem'] if f else n), 'reachable')
            if f and not f['decl']:
                rep.functions.add(n)
        for n, msg, loc in bad(m, g, roots, ishot):
            key = '%s/%s' % (kind.split('/')[0], m.p.raw[n]['dem'] if n in m.p.raw else n)
            pth = ' -> '.join('%s' % a[0] for a in g.path(par, n))
            rep.violate(key, '%s is reachable from a real-time entry point: %s; path %s' % (msg, loc, pth), loc)
    # filter and reset never throw, and their loops have a data-independent bound
    tasks = []
    for p in pre:
        for op in ('_fd', '_reset', '_f'):
            if p + op not in m.p.raw or p not in pre:
                continue
            def one(p=p, op=op):
                k = K(m, p)
                st, o = k.new()
                extra = ()
                if op == '_f':
                    bq = K(m, 'bq')
                    st, b = bq.new(st)
                    st, _, _ = m.abstract(st, b, list(m.dcells(st, b)), 'c')
                    extra = (b,)
                if pre[p][0] == 'designer':
                    fam, kind = [(f, kk) for q, f, kk, _, _ in cat if q == p][0]
                    st, _ = k.ok(st, '_n', o, *vals(fam, kind))
                st, _, _ = m.abstract(st, o, list(m.dcells(st, o)), 'v')
                r = k.call(st, op, o, *(list(extra) + ([] if op == '_reset' else [real('x')])))
                if r.st is None or r.throws or r.aborts:
                    rep.violate('throw/' + p + op, '%s can end without returning (%s)' % (where(m, p + op), r.throws[0].exc if r.throws else 'no normal outcome'), where(m, p + op))
                else:
                    rep.ob('%s always returns' % (p + op), 'total')
            tasks.append((p + op, one))
    rep.par(m, tasks)
    rep.cover.update(roots_hot=len(hot), roots_other=len(cold))
    return rep.finish(400)


def bad(m, g, roots, hot=False):
    par = g.reach(roots)
    out = []
    for n in par:
        r = m.p.raw.get(n)
        dem = r['dem'] if r else n
        caller, loc = par[n]
        if r is None or r['decl']:
            if n in OKEXT or n.startswith(BENIGN) or n in g.doomed:
                continue
            if n in ('__cxa_guard_acquire', '__cxa_guard_release', '__cxa_guard_abort', '__cxa_atexit'):
                if hot:
                    out.append((n, 'a lock (guarded static initialisation)', loc))
                continue
            out.append((n, 'call of %s' % dem, '%s in %s' % (loc, m.p.raw[caller]['dem'] if caller else '?')))
            continue
        for b in r['blocks']:
            if b['id'] not in g.live.get(n, ()):
                continue
            for x in b['i']:
                if x['op'] in ('atomicrmw', 'cmpxchg', 'fence'):
                    out.append((n, 'atomic operation', '%s in %s' % (x.get('loc'), dem)))
                if x['op'] in ('call', 'invoke') and x['callee'][0] not in ('g', 'asm'):
                    out.append((n, 'call through a pointer', '%s in %s' % (x.get('loc'), dem)))
                if x['op'] == 'alloca' and x['n'] and x['n'][0] != 'i':
                    out.append((n, 'variable-size stack allocation', '%s in %s' % (x.get('loc'), dem)))
    # recursion
    idx, low, stack, on, cnt, comps = {}, {}, [], set(), [0], []

    def edges(n):
        r = m.p.raw.get(n)
        return [c for _, c in g.sites(n) if c in par] if r and not r['decl'] else []
    for root in par:
        if root in idx:
            continue
        work = [(root, iter(edges(root)))]
        idx[root] = low[root] = cnt[0]
        cnt[0] += 1
        stack.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = cnt[0]
                    cnt[0] += 1
                    stack.append(w)
                    on.add(w)
                    work.append((w, iter(edges(w))))
                    break
                elif w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = stack.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    if len(c) > 1 or v in edges(v):
                        comps.append(c)
    for c in comps:
        f = m.p.raw[c[0]]
        out.append((c[0], 'recursion through %s' % ', '.join(m.p.raw[x]['dem'] for x in c[:4]), f.get('loc')))
    return out
