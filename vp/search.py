"""Search for valuations that satisfy a guard of a summary.

The summary's terms and decision diagrams are evaluated on whole arrays of valuations at once.  A first array is spread
over the declared ranges (also logarithmically towards their ends); later ones are mutations of the valuations with the
least branch distance (the cheapest path through the diagram, each comparison costing its gap).  What is found is only a
candidate: the caller re-evaluates it with high precision.  Terms of the summary are evaluated; the code is not run."""
import math, time
import numpy as np
from .terms import *
from .terms import ATOMS, SYM, B, I, T, KFLT

BIG = 1e6
NAN_ = np.float64('nan')


def f_csqrt(part):
    def f(a, b):
        r = np.sqrt(np.asarray(a) + 1j * np.asarray(b))
        return r.real if part == 're' else r.imag
    return f


UN = {'neg': np.negative, 'fabs': np.abs, 'sqrt': np.sqrt, 'sin': np.sin, 'cos': np.cos, 'tan': np.tan, 'asin': np.arcsin, 'acos': np.arccos, 'atan': np.arctan,
      'sinh': np.sinh, 'cosh': np.cosh, 'tanh': np.tanh, 'asinh': np.arcsinh, 'acosh': np.arccosh, 'atanh': np.arctanh, 'exp': np.exp, 'log': np.log,
      'log10': np.log10, 'log2': np.log2, 'log1p': np.log1p, 'expm1': np.expm1, 'cbrt': np.cbrt, 'floor': np.floor, 'ceil': np.ceil, 'trunc': np.trunc,
      'round': lambda a: np.trunc(a + np.copysign(0.5, a)), 'f32': lambda a: np.asarray(a).astype(np.float32).astype(np.float64)}
BIN = {'+': np.add, '-': np.subtract, '*': np.multiply, '/': np.divide, 'pow': np.power, 'hypot': np.hypot, 'atan2': np.arctan2, 'fmod': np.fmod,
       'csqrt_re': f_csqrt('re'), 'csqrt_im': f_csqrt('im')}
INT = {'add': np.add, 'sub': np.subtract, 'mul': np.multiply}


class Program:
    """everything below some terms and guards in evaluation order"""

    def __init__(self, terms, gates, limit=40000):
        self.code = []
        seen = set()
        st = [(x, False) for x in list(terms) + list(gates) if isinstance(x, (T, B, I))]
        self.ok = True
        while st:
            x, done = st.pop()
            k = self.key(x)
            if done:
                self.code.append((k, x))
                if len(self.code) > limit:
                    self.ok = False
                    return
                continue
            if k in seen:
                continue
            seen.add(k)
            st.append((x, True))
            if isinstance(x, tuple):
                ds = ATOMS[x[1]][1:]
            elif isinstance(x, B):
                ds = (('atom', x.var), x.hi, x.lo)
            else:
                ds = x.args
            st.extend((y, False) for y in ds if (isinstance(y, (T, B, I)) or (isinstance(y, tuple) and isinstance(x, B))) and self.key(y) not in seen)
        self.n = int(max(64, min(1536, 8e6 / (len(self.code) + 1))))

    @staticmethod
    def key(x):
        if isinstance(x, T):
            return ('t', x.id)
        if isinstance(x, B):
            return ('b', x.id)
        if isinstance(x, I):
            return ('i', id(x))
        return x

    def run(self, cols):
        V = {}
        key = self.key

        def val(y):
            if isinstance(y, (T, B, I)):
                return V[key(y)]
            return y
        with np.errstate(all='ignore'):
            for k, x in self.code:
                try:
                    if isinstance(x, tuple):
                        d = ATOMS[x[1]]
                        if d[0] == 'lt':
                            r = np.less(val(d[1]), val(d[2]))
                        elif d[0] == 'eq':
                            a, b = val(d[1]), val(d[2])
                            r = (np.abs(a - b) <= 1e-13 * (np.abs(a) + np.abs(b))) | np.equal(a, b)
                        elif d[0] == 'nan':
                            r = np.isnan(val(d[1]))
                        elif d[0] == 'icmp':
                            a, b = val(d[2]), val(d[3])
                            if d[1] == 'ult':
                                a, b = [np.where(np.asarray(q) < 0, np.asarray(q) + 2.0 ** 64, q) for q in (a, b)]
                            r = np.equal(a, b) if d[1] == 'eq' else np.less(a, b)
                        else:
                            r = np.bool_(False)
                    elif isinstance(x, B):
                        r = np.where(V[('atom', x.var)], val(x.hi), val(x.lo)).astype(bool)
                    else:
                        o = x.op
                        a = x.args
                        if o == 'sym':
                            r = cols[a[0]]
                        elif o == 'ite':
                            r = np.where(val(a[0]), val(a[1]), val(a[2]))
                        elif isinstance(x, I):
                            if o == 'b2i':
                                r = np.asarray(val(a[0])).astype(np.float64)
                            elif o == 'd2i':
                                r = np.trunc(val(a[0]))
                            elif o in INT:
                                r = INT[o](val(a[0]), val(a[1]))
                            else:
                                r = NAN_
                        elif o == 'c':
                            try:
                                r = np.float64(float(a[0]))
                            except OverflowError:
                                r = np.float64('inf') if a[0] > 0 else np.float64('-inf')
                        elif o == 'k':
                            r = np.float64(KFLT[a[0]])
                        elif o == 'sp':
                            r = np.float64(float(a[0]))
                        elif o == 'i2d':
                            r = val(a[0]) * np.float64(1)
                        elif o in UN:
                            r = UN[o](val(a[0]))
                        elif o in BIN:
                            r = BIN[o](val(a[0]), val(a[1]))
                        else:
                            r = NAN_
                except (KeyError, TypeError, IndexError, ValueError):
                    r = NAN_
                V[k] = r
        self.V = V
        self.gaps = {}
        return self

    def get(self, x, n):
        v = self.V[self.key(x)] if isinstance(x, (T, B, I)) else x
        return np.broadcast_to(v, (n,))

    def gap(self, v, n):
        """cost of the comparison being false, being true"""
        r = self.gaps.get(v)
        if r is not None:
            return r
        d = ATOMS[v]
        t = np.broadcast_to(self.V[('atom', v)], (n,)).astype(bool)
        with np.errstate(all='ignore'):
            if d[0] in ('lt', 'eq'):
                a, b = self.get(d[1], n), self.get(d[2], n)
                g = np.abs(a - b)
                g = g / (1 + g) + g / (np.abs(a) + np.abs(b) + 1e-300)
                g = np.where(np.isfinite(g), g, 5.0)
                if d[0] == 'eq' and not (is_c(d[1]) or is_c(d[2])):
                    g = np.full(n, BIG)
                # strictness: a comparison that is just missed still costs something
                g = g + 1e-12
                r = (np.where(t, g if d[0] == 'lt' else 1e-3, 0), np.where(t, 0, g))
            elif d[0] == 'icmp':
                g = np.abs(self.get(d[2], n) - self.get(d[3], n)) + 1.0
                g = np.where(np.isfinite(g), g / (1 + g), BIG)
                r = (np.where(t, g, 0), np.where(t, 0, g))
            else:
                r = (np.where(t, BIG, 0), np.where(t, 0, BIG))
        self.gaps[v] = r
        return r

    def distance(self, g, n):
        if isinstance(g, bool):
            return np.zeros(n) if g else np.full(n, np.inf)
        memo = {}
        st = [g]
        while st:
            b = st[-1]
            if isinstance(b, bool) or b.id in memo:
                st.pop()
                continue
            need = [c for c in (b.hi, b.lo) if not isinstance(c, bool) and c.id not in memo]
            if need:
                st.extend(need)
                continue
            cf, ct = self.gap(b.var, n)
            h = memo[b.hi.id] if not isinstance(b.hi, bool) else (0.0 if b.hi else np.inf)
            l = memo[b.lo.id] if not isinstance(b.lo, bool) else (0.0 if b.lo else np.inf)
            memo[b.id] = np.minimum(ct + h, cf + l)
            st.pop()
        return memo[g.id]


class Space:
    """the declared ranges of the inputs"""

    def __init__(self, sy, iv, special, eqp=(), seed=1):
        self.sy, self.iv, self.sp, self.eqp = sorted(sy, key=lambda s: s.args[0]), sorted(iv, key=lambda i: str(i.args[0])), special or {}, list(eqp)
        self.rng = np.random.default_rng(seed)

    def clip(self, s, v):
        lo, hi, f32, lop, hop, _ = SYM[s.id]
        a, b = max(float(lo), -1.7e308), min(float(hi), 1.7e308)
        tiny = 1e-15 * min(b - a, 1.0)
        if lop and abs(lo) != np.inf:
            a = max(np.nextafter(a, np.inf), a + tiny)
        if hop and abs(hi) != np.inf:
            b = min(np.nextafter(b, -np.inf), b - tiny)
        v = np.clip(np.where(np.isnan(v), a if abs(a) < 1e300 else 0.0, v), a, b)
        if f32:
            with np.errstate(all='ignore'):
                v = v.astype(np.float32).astype(np.float64)
            v = np.clip(v, a, b)
        return v

    def spread(self, n, pts=()):
        r = self.rng
        cols = {}
        for s in self.sy:
            lo, hi = SYM[s.id][:2]
            m = r.random(n)
            t = 10.0 ** -r.uniform(0, 13, n)
            with np.errstate(all='ignore'):
                if abs(lo) != np.inf and abs(hi) != np.inf:
                    w = float(hi) - float(lo)
                    v = np.where(m < 0.5, lo + w * r.random(n), np.where(m < 0.75, lo + w * t, hi - w * t))
                    if hi > 1e5:
                        v = np.where((m < 0.3), lo + 10 * r.random(n), v)
                elif abs(lo) != np.inf or abs(hi) != np.inf:
                    q = np.where(m < 0.5, 3 * r.random(n), 10.0 ** r.uniform(-13, 13, n))
                    v = lo + q if abs(lo) != np.inf else hi - q
                else:
                    v = np.where(m < 0.5, r.normal(size=n), r.choice([-1.0, 1.0], n) * 10.0 ** r.uniform(-13, 13, n))
                sp = sorted(float(x) for x in self.sp.get(s.args[0], ()))
                if sp:
                    c = r.choice(sp, n)
                    z = r.random(n)
                    c = np.where(z < 0.4, c, c + r.choice([-1.0, 1.0], n) * np.maximum(np.abs(c), 1e-3) * 10.0 ** -r.uniform(0.3, 15, n))
                    v = np.where(r.random(n) < 0.3, c, v)
            cols[s.args[0]] = v
        for i in self.iv:
            v = np.where(r.random(n) < 0.6, r.integers(max(i.lo, -3), min(i.hi, 40) + 1 if min(i.hi, 40) >= max(i.lo, -3) else max(i.lo, -3) + 1, n), r.integers(max(i.lo, -2**31), min(i.hi, 2**31 - 1) + 1, n)).astype(np.float64)
            sp = [int(x) for x in self.sp.get(i.args[0], ())]
            if sp:
                v = np.where(r.random(n) < 0.6, r.choice(sp, n) + r.integers(-1, 2, n), v)
            cols[i.args[0]] = np.clip(v, i.lo, i.hi)
        for a, b in self.eqp:
            if a in cols and b in cols:
                cols[b] = np.where(r.random(n) < 0.4, cols[a], cols[b])
        for j, p in enumerate(pts[:n // 2]):
            for k in cols:
                if k in p:
                    try:
                        cols[k][j] = float(p[k])
                    except (OverflowError, TypeError):
                        pass
        for s in self.sy:
            cols[s.args[0]] = self.clip(s, cols[s.args[0]])
        return cols

    def mutate(self, cols, best, n):
        r = self.rng
        pick = r.choice(best, n)
        out = {}
        names = [s.args[0] for s in self.sy] + [i.args[0] for i in self.iv]
        ch = r.random((len(names), n)) < max(0.35, 1.2 / max(1, len(names)))
        for j, s in enumerate(self.sy):
            v = cols[s.args[0]][pick]
            lo, hi = float(SYM[s.id][0]), float(SYM[s.id][1])
            w = np.where(r.random(n) < 0.5, hi - lo if abs(lo) != np.inf and abs(hi) != np.inf and hi - lo < 1e4 else 1.0, np.maximum(np.abs(v), 1e-12))
            with np.errstate(all='ignore'):
                q = v + w * r.normal(size=n) * 10.0 ** -r.uniform(0, 9, n)
                # towards the ends of the range
                e = r.random(n)
                if abs(lo) != np.inf:
                    q = np.where(e < 0.1, lo + (v - lo) * 10.0 ** r.uniform(-3, 0.5, n), q)
                if abs(hi) != np.inf:
                    q = np.where(e > 0.9, hi - (hi - v) * 10.0 ** r.uniform(-3, 0.5, n), q)
            out[s.args[0]] = self.clip(s, np.where(ch[j], q, v))
        for j, i in enumerate(self.iv):
            v = cols[i.args[0]][pick]
            z = np.where(r.random(n) < 0.7, v + r.integers(-2, 3, n), np.trunc(v * r.uniform(-1, 2, n)))
            out[i.args[0]] = np.clip(np.where(ch[len(self.sy) + j], z, v), i.lo, i.hi)
        return out

    def point(self, cols, j):
        p = {'__seed': 0}
        for s in self.sy:
            p[s.args[0]] = mp.mpf(float(cols[s.args[0]][j]))
        for i in self.iv:
            p[i.args[0]] = int(cols[i.args[0]][j])
        return p


def evolve(prog, space, g, cols, d, rounds=7, want=3):
    """valuations with g, starting from an evaluated array"""
    n = prog.n
    for _ in range(rounds + 1):
        z = np.nonzero(d == 0)[0]
        if len(z):
            return [space.point(cols, j) for j in z[:want]]
        if _ == rounds:
            return []
        best = np.argsort(d, kind='stable')[:24]
        if d[best[0]] >= BIG:
            return []
        new = space.mutate(cols, best, n - len(best))
        cols = {k: np.concatenate([cols[k][best], new[k]]) for k in cols}
        prog.run(cols)
        d = prog.distance(g, n)
    return []


def edges(c, ctx):
    """targets of a condition: each edge of its diagram as (id, var, side, guard)"""
    reach, nodes, st = {c.id: ctx}, {c.id: c}, [c]
    while st:
        x = st.pop()
        for y in (x.hi, x.lo):
            if not isinstance(y, bool) and y.id not in nodes:
                nodes[y.id] = y
                st.append(y)
    for x in sorted(nodes.values(), key=lambda x: x.var):
        for side, y in ((True, x.hi), (False, x.lo)):
            v = bmk(x.var, True, False)
            g = band(reach.get(x.id, False), v if side else bnot(v))
            if not isinstance(y, bool):
                reach[y.id] = bor(reach.get(y.id, False), g)
            if g is not False:
                yield g


def hunt(gate, terms, guards, sy, iv, special, eqp=(), pts=(), most=10, feasible=None, goals=(), pairs=(), seconds=20, seed=1):
    """candidate valuations inside gate: for the goals, for each branch of the terms, and where paired terms seem to differ"""
    t0 = time.time()
    targets, ids = [], set()
    for c, ctx in guards:
        if isinstance(c, B) and len(bsupport(c)) <= 14:
            for g in edges(c, ctx):
                if isinstance(g, B) and g.id not in ids and len(targets) < 200:
                    ids.add(g.id)
                    targets.append(g)
    prog = Program(list(terms), [gate] + list(goals) + targets)
    if not prog.ok:
        return
    n = prog.n
    space = Space(sy, iv, special, eqp, seed)
    cols = space.spread(n, pts)
    prog.run(cols)
    ins = prog.get(gate, n).astype(bool)
    if not ins.any():
        got = evolve(prog, space, gate, cols, prog.distance(gate, n))
        if not got:
            return
        yield from got
        # continue around what was found
        cols = space.spread(n, got)
        best = np.arange(min(len(got), n // 2))
        new = space.mutate(cols, best, n - len(best))
        cols = {k: np.concatenate([cols[k][best], new[k]]) for k in cols}
        prog.run(cols)
        ins = prog.get(gate, n).astype(bool)
        if not ins.any():
            return
    base = cols
    idx = np.nonzero(ins)[0]
    with np.errstate(all='ignore'):
        for a, b in pairs:
            u, v = prog.get(a, n), prog.get(b, n)
            df = np.abs(u - v) / np.maximum(np.abs(u), np.abs(v))
            df = np.where(ins & np.isfinite(df), df, 0)
            for j in np.argsort(-df, kind='stable')[:4]:
                if df[j] > 1e-4:
                    yield space.point(base, j)
    todo = []
    for g in list(goals) + targets:
        k = np.nonzero(ins & prog.get(g, n).astype(bool))[0] if isinstance(g, B) else []
        if len(k):
            if len(k) < 0.02 * len(idx) or g in goals:
                yield space.point(base, k[0])
        else:
            h = band(gate, g)
            if isinstance(h, B) and (feasible is None or feasible(h)):
                d = prog.distance(h, n)
                if d.min() < BIG:
                    todo.append((g not in goals, float(d.min()), len(todo), h, d))
    todo.sort(key=lambda x: x[:3])
    for _, _, _, h, d in todo[:most]:
        if time.time() - t0 > seconds:
            return
        yield from evolve(prog, space, h, base, d)
