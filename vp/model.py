"""Build the IR of /repo's current sources, call library entry points inside the
analysis, and decide obligations about the resulting value-flow summaries."""
import glob, hashlib, itertools, json, os, random, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from . import terms as t_
from . import engine as eng
from .engine import *
from .field import identical
from .terms import *
from .search import hunt

REPO = os.environ.get('VP_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LLVM = '/usr/lib/llvm-18/bin'
IRDUMP = os.path.join(VERIF, 'build', 'irdump')


class Broken(Exception):
    """the check cannot give an answer (build failure, vanished anchor...)"""


def sources():
    r = sorted(glob.glob(os.path.join(REPO, 'iir', '**', '*.cpp'), recursive=True))
    if not r:
        raise Broken('no library sources found under %s/iir' % REPO)
    return r


def ensure_tool():
    src = os.path.join(VERIF, 'tools', 'irdump.cpp')
    if os.path.exists(IRDUMP) and os.path.getmtime(IRDUMP) >= os.path.getmtime(src):
        return
    os.makedirs(os.path.dirname(IRDUMP), exist_ok=True)
    fl = subprocess.check_output([LLVM + '/llvm-config', '--cxxflags'], text=True).split()
    tmp = IRDUMP + '.%d' % os.getpid()
    subprocess.run(['clang++', '-O1', *fl, '-fexceptions', src, '-o', tmp, '-L/usr/lib/llvm-18/lib', '-lLLVM-18'], check=True)
    os.replace(tmp, IRDUMP)


def compile_ir(driver_text, flags=(), tag='drv', std='c++11'):
    """driver text + library sources -> Program"""
    ensure_tool()
    with tempfile.TemporaryDirectory(prefix='vp-') as d:
        drv = os.path.join(d, tag + '.cpp')
        with open(drv, 'w') as f:
            f.write(driver_text)
        units = sources() + [drv]

        def one(i):
            u = units[i]
            bc = os.path.join(d, '%d.bc' % i)
            o = os.path.join(d, '%d.m.bc' % i)
            r = subprocess.run(['clang++', '-std=' + std, '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-DNDEBUG', *flags, '-emit-llvm', '-c',
                                '-I' + REPO, '-I' + os.path.join(VERIF, 'drivers'), u, '-o', bc], capture_output=True, text=True)
            if r.returncode:
                return 'compilation of %s failed:\n%s' % (u, r.stderr[-3000:])
            r = subprocess.run([LLVM + '/opt', '-passes=mem2reg', bc, '-o', o], capture_output=True, text=True)
            if r.returncode:
                return r.stderr
            return None
        with ThreadPoolExecutor(8) as ex:
            errs = [e for e in ex.map(one, range(len(units))) if e]
        if errs:
            raise Broken(errs[0])
        js = os.path.join(d, 'm.json')
        with open(js, 'w') as f:
            r = subprocess.run([IRDUMP] + [os.path.join(d, '%d.m.bc' % i) for i in reversed(range(len(units)))], stdout=f, stderr=subprocess.PIPE, text=True)
        if r.returncode:
            raise Broken('irdump: ' + r.stderr[-2000:])
        return Program(js)


class Res:
    """result of calling one entry point"""
    __slots__ = ('st', 'val', 'throws', 'aborts')

    def __init__(self, st, val, throws, aborts):
        self.st, self.val, self.throws, self.aborts = st, val, throws, aborts

    def throw_gate(self):
        g = False
        for t in self.throws:
            g = bor(g, t.gate)
        return g


class Machine:
    """one analysis universe: calls are composed from Python, each on an explicit abstract state"""

    def __init__(self, prog, budget=30000000):
        self.p = prog
        self.e = Engine(prog, budget)
        self.e.curloc = '?'
        self.ncalls = 0
        st = State(True, {})
        self.e.callty = 'void'
        self.e.cur = st
        for e in (prog.globals.get('llvm.global_ctors') or {}).get('init', []):
            if e[1] == 'val' and e[4][0] == 'g' and e[4][1] in prog.raw:
                r, _, _ = self.e.call(e[4][1], [], st, 0)
                if r is not None:
                    st = r
        self.e.events = []
        self.base = st

    def state(self):
        return self.base.fork(True)

    def alloc(self, st, size, name='obj'):
        return P(self.e.new(st, name, size, 'stack'), 0)

    def call(self, st, name, *args):
        """analyse one call from a private copy of st"""
        if name not in self.p.raw:
            raise Broken('entry point %s missing' % name)
        s = st.fork(st.gate)
        s.env = None
        self.ncalls += 1
        na = len(self.e.aborts)
        self.e.cur = s
        r = self.p.raw[name]
        self.e.callty = r['ret']
        s2, v, thr = self.e.call(name, list(args), s, 0)
        thr = [t for t in thr if feasible(t.gate)]
        ab = [a for a in self.e.aborts[na:] if feasible(a[0])]
        if s2 is not None and not feasible(s2.gate):
            s2 = None
        return Res(s2, v, thr, ab)

    def ok(self, st, name, *args):
        """call that must have a normal outcome; restrict to it"""
        r = self.call(st, name, *args)
        if r.st is None:
            raise Broken('%s has no normal outcome' % name)
        return r.st, r.val

    def cells(self, st, p):
        return {k: v for k, (s, v) in st.mem[p.obj].cells.items()}

    def dcells(self, st, p):
        return {k: v for k, (s, v) in st.mem[p.obj].cells.items() if isinstance(v, T)}

    def abstract(self, st, p, offs, tag, lo=-INF, hi=INF, nan=False):
        """replace the double cells at offs by fresh symbols; returns off->sym and old terms"""
        st = st.fork(st.gate)
        o = st.wobj(p.obj)
        new, old = {}, {}
        for k in sorted(offs):
            sz, v = o.cells[k]
            if not isinstance(v, T):
                continue
            s = sym('%s@%d' % (tag, k), lo, hi, nan=nan)
            old[k] = v
            new[k] = s
            o.cells[k] = (sz, s)
        return st, new, old


def changed(a, b):
    """offsets whose value differs between two cell dicts"""
    r = set()
    for k in set(a) | set(b):
        x, y = a.get(k), b.get(k)
        if x is None or y is None or not (x is y or eng.veq(x, y)):
            r.add(k)
    return r


# -------------------------------------------------------------------- points
def special_values(conds):
    """input-symbol -> list of constants it is compared with"""
    r = {}
    for v in conds:
        d = ATOMS[v]
        if d[0] in ('lt', 'eq'):
            for a, b in ((d[1], d[2]), (d[2], d[1])):
                if b.op in ('c',):
                    c = b.args[0]
                    x = a
                    # unwrap affine chains over one symbol
                    for _ in range(12):
                        if x.op == 'sym':
                            r.setdefault(x.args[0], set()).add(c)
                            break
                        if x.op == 'neg':
                            x, c = x.args[0], -c
                        elif x.op == '*' and is_c(x.args[0]) and x.args[0].args[0]:
                            c, x = c / x.args[0].args[0], x.args[1]
                        elif x.op == '*' and is_c(x.args[1]) and x.args[1].args[0]:
                            c, x = c / x.args[1].args[0], x.args[0]
                        elif x.op == '+' and is_c(x.args[0]):
                            c, x = c - x.args[0].args[0], x.args[1]
                        elif x.op == '+' and is_c(x.args[1]):
                            c, x = c - x.args[1].args[0], x.args[0]
                        elif x.op == '-' and is_c(x.args[1]):
                            c, x = c + x.args[1].args[0], x.args[0]
                        elif x.op == '-' and is_c(x.args[0]):
                            c, x = x.args[0].args[0] - c, x.args[1]
                        elif x.op == 'fabs':
                            x = x.args[0]
                            # both signs
                            if x.op == 'sym':
                                r.setdefault(x.args[0], set()).update((c, -c))
                                break
                        elif x.op == '*' and 'pi' in str(x.args):
                            break
                        else:
                            break
        elif d[0] == 'icmp' and isinstance(d[2], I) and d[2].op == 'sym' and isinstance(d[3], int):
            r.setdefault(d[2].args[0], set()).add(Fr(d[3]))
    return r


def sym_bounds(s):
    lo, hi, f32, lop, hop, _ = SYM[s.id]
    return lo, hi


class Sampler:
    """candidate valuations of the input symbols inside their declared ranges"""

    def __init__(self, syms, seed, special=None, eqs=()):
        self.syms = sorted(syms, key=lambda s: s.args[0])
        self.special = special or {}
        self.seed = seed

    def points(self, n):
        for k in range(n):
            rnd = random.Random('%s/%d' % (self.seed, k))
            pt = {'__seed': k}
            scale = 10.0 ** rnd.choice([0, 0, 0, 0, -2, 3, -8, 6, -40, -160, -310]) if k >= 4 else 1.0
            for s in self.syms:
                name = s.args[0]
                lo, hi, f32, lop, hop, _ = SYM[s.id]
                sp = sorted(x for x in self.special.get(name, ()) if lo <= x <= hi and not (lop and x == lo) and not (hop and x == hi))
                if sp and rnd.random() < 0.75:
                    c = rnd.choice(sp)
                    i = sp.index(c)
                    w = rnd.random()
                    nxt = sp[i + 1] if i + 1 < len(sp) else (Fr(hi) if abs(hi) != INF else c + max(1, abs(c)))
                    prv = sp[i - 1] if i > 0 else (Fr(lo) if abs(lo) != INF else c - max(1, abs(c)))
                    if w < 0.34:
                        v = mp.mpf(c.numerator) / c.denominator
                    elif w < 0.67:
                        v = (mp.mpf(c.numerator) / c.denominator) + (mp.mpf(nxt.numerator) / nxt.denominator - mp.mpf(c.numerator) / c.denominator) * mp.mpf(rnd.choice([1e-9, 1e-3, 0.3, 0.5, 0.9]))
                    else:
                        v = (mp.mpf(c.numerator) / c.denominator) - (mp.mpf(c.numerator) / c.denominator - mp.mpf(prv.numerator) / prv.denominator) * mp.mpf(rnd.choice([1e-9, 1e-3, 0.3, 0.5, 0.9]))
                elif lo == -INF and hi == INF:
                    v = mp.mpf(rnd.uniform(-2, 2)) * scale
                    if k >= 8 and rnd.random() < 0.15:
                        v = mp.mpf(rnd.choice([0, 0, 1, -1, 1e-200, 1e200, 0.5]))
                elif lo == -INF:
                    v = mp.mpf(hi) - abs(mp.mpf(rnd.uniform(1e-3, 3)) * scale)
                elif hi == INF:
                    v = mp.mpf(lo) + abs(mp.mpf(rnd.uniform(1e-3, 3)) * scale)
                else:
                    u = rnd.random()
                    if k >= 6 and rnd.random() < 0.2:
                        u = rnd.choice([1e-6, 1e-3, 1 - 1e-3, 1 - 1e-6])
                    elif not lop and k >= 6 and rnd.random() < 0.05:
                        u = 0.0
                    elif not hop and k >= 6 and rnd.random() < 0.05:
                        u = 1.0
                    if k >= 2 and hi > 1e5 and 0 <= lo < 1 and rnd.random() < 0.8:
                        a = max(lo, 1e-4)
                        v = mp.mpf(a) * (mp.mpf(hi) / a) ** mp.mpf(rnd.uniform(0.001, 0.999)) if rnd.random() < 0.6 else mp.mpf(lo) + (mp.mpf(10) - lo) * mp.mpf(rnd.uniform(1e-3, 1))
                    elif k >= 2 and lo >= 0 and hi > 20 * max(lo, hi * 1e-7) and rnd.random() < 0.4:
                        # small values of a wide range
                        a = max(lo, hi * 1e-7)
                        v = mp.mpf(a) * (mp.mpf(hi) / a) ** mp.mpf(rnd.uniform(0.001, 0.999))
                    else:
                        v = mp.mpf(lo) + (mp.mpf(hi) - mp.mpf(lo)) * mp.mpf(u)
                if f32:
                    import struct
                    v = mp.mpf(struct.unpack('f', struct.pack('f', float(v)))[0])
                pt[name] = v
            yield pt


def input_syms(objs):
    acc, seen = set(), set()
    for t in objs:
        if isinstance(t, T):
            syms_of(t, acc, seen)
        elif isinstance(t, B):
            for v in bsupport(t):
                for y in ATOMS[v][1:]:
                    if isinstance(y, T):
                        syms_of(y, acc, seen)
                    elif isinstance(y, I):
                        isyms_terms(y, acc, seen)
    return acc


def isyms_terms(i, acc, seen):
    st = [i]
    while st:
        x = st.pop()
        for y in x.args:
            if isinstance(y, T):
                syms_of(y, acc, seen)
            elif isinstance(y, I):
                st.append(y)


def isyms(objs):
    """integer symbols occurring in gates"""
    r = set()
    for b in objs:
        if isinstance(b, B):
            for v in bsupport(b):
                d = ATOMS[v]
                if d[0] == 'icmp':
                    st = [x for x in d[2:] if isinstance(x, I)]
                    while st:
                        x = st.pop()
                        if x.op == 'sym':
                            r.add(x)
                        st.extend(y for y in x.args if isinstance(y, I))
    return r


def related(syms):
    """pairs of symbols for the same quantity at different times (x and x')"""
    by = {}
    for s in syms:
        if s.op == 'sym':
            by.setdefault(s.args[0].replace("'", ''), []).append(s)
    return [(a, b) for v in by.values() if len(v) > 1 for v in [sorted(v, key=lambda s: s.args[0])] for a, b in zip(v, v[1:])]


def relate(pt, rel, rnd):
    """now and then make later values coincide with or lie close to earlier ones"""
    for a, b in rel:
        if rnd.random() < 0.4:
            x = pt.get(a.args[0])
            if x is None:
                continue
            y = x + rnd.choice([0, 1, -1]) * mp.mpf(10) ** -rnd.choice([1, 2, 3, 4, 6, 8, 10, 14]) * max(1, abs(x))
            lo, hi, f32, lop, hop, _ = SYM[b.id]
            if not f32 and lo < y < hi:
                pt[b.args[0]] = y


def anyint(i, rnd):
    if rnd.random() < 0.25 and i.hi - i.lo > 10000:
        return rnd.randint(i.lo, i.hi)
    return rnd.randint(max(i.lo, -100), min(i.hi, max(100, i.lo + 5)))


def merge(pt, eqp, rnd, prob):
    """make inputs that the conditions compare with each other coincide"""
    rep = {}

    def root(a):
        while a in rep:
            a = rep[a]
        return a
    for a, b in eqp:
        if a in pt and b in pt and rnd.random() < prob:
            x, y = root(a), root(b)
            if x != y:
                rep[y] = x
    for a in rep:
        pt[a] = pt[root(a)]
    return set(rep) | set(rep.values())


def pick(eqs, sy, rnd, fixed):
    """choose the inputs to solve coincidences eqs for: (constants, equations, unknowns) or None"""
    const, todo, free = {}, [], []
    for v in eqs:
        sv = special_values({v})
        if len(sv) == 1 and (is_c(ATOMS[v][1]) or is_c(ATOMS[v][2])):
            (nm, vals), = sv.items()
            if len(vals) == 1:
                const[nm] = next(iter(vals))
                continue
        todo.append(v)
    names = {s.args[0] for s in sy}
    for v in todo:
        c = sorted({s.args[0] for s in syms_of(ATOMS[v][1]) | syms_of(ATOMS[v][2]) if not SYM[s.id][2]} & names - fixed - set(const) - set(free))
        if not c:
            return None
        free.append(rnd.choice(c))
    return const, todo, free


def solve(pt, plan, sy):
    """move a valuation onto the coincidences of a plan (secant / Newton iteration)"""
    const, todo, free = plan
    for nm, c in const.items():
        pt[nm] = mp.mpf(c.numerator) / c.denominator

    def F(*xs):
        e = MpEval({**pt, **dict(zip(free, xs))})
        return [e.ev(ATOMS[v][1]) - e.ev(ATOMS[v][2]) for v in todo]
    try:
        if len(todo) == 1:
            x = pt[free[0]]
            xs = [mp.findroot(lambda z: F(z)[0], (x, x + abs(x) / 64 + mp.mpf(2) ** -20), solver='secant', maxsteps=60, verify=False)]
        else:
            xs = list(mp.findroot(F, [pt[f] for f in free], maxsteps=40, verify=False)) if todo else []
        by = {s.args[0]: s for s in sy}
        for f, x in zip(free, xs):
            lo, hi, f32, lop, hop, _ = SYM[by[f].id]
            if isinstance(x, mp.mpc) or not mp.isfinite(x) or x < lo or x > hi or (lop and x == lo) or (hop and x == hi):
                return False
            pt[f] = x
        e = MpEval(dict(pt))
        return all(e.atomval(ATOMS[v]) for v in todo)
    except (Undefined, ValueError, ZeroDivisionError, TypeError, KeyError, OverflowError):
        return False


def find_point(gate, extra=(), n=400, seed=7, pred=None, goals=()):
    """a valuation of the inputs under which gate holds (None if none found)"""
    if gate is False:
        return None
    sy = input_syms([gate] + list(extra))
    iv = isyms([gate])
    sup = bsupport(gate) if isinstance(gate, B) else set()
    sp = special_values(sup)
    rel = related(sy)
    # pair-equality atoms between input symbols
    eqp = []
    for v in sup:
        d = ATOMS[v]
        if d[0] == 'eq' and d[1].op == 'sym' and d[2].op == 'sym':
            eqp.append((d[1].args[0], d[2].args[0]))
    tried, reached = [], False
    for k, pt in enumerate(Sampler(sy, seed, sp).points(n)):
        rnd = random.Random('i%s/%d' % (seed, k))
        for i in iv:
            ks = [int(x) for x in sp.get(i.args[0], ())]
            c = rnd.choice(ks) + rnd.choice([-1, 0, 1, 1]) if ks and rnd.random() < 0.7 else anyint(i, rnd)
            pt[i.args[0]] = min(max(c, i.lo), i.hi)
        if k & 1 and rel:
            relate(pt, rel, rnd)
        if eqp:
            merge(pt, eqp, rnd, (0.5, 0.9)[k & 1])
        e = MpEval(pt)
        try:
            if k < 100:
                tried.append(pt)
            if e.cond(gate):
                if pred is None or pred(e):
                    return pt
                reached = True
        except (Undefined, KeyError):
            continue
    # narrow guards: descend towards the gate, or towards branches of the summary not taken so far
    if not isinstance(gate, B) and pred is None:
        return None
    more = hunt(gate, extra, guards(extra) if pred is not None else (), sy, iv, sp, eqp, tried, feasible=feasible, goals=goals)
    for pt in more:
        e = MpEval(dict(pt))
        try:
            if e.cond(gate) and (pred is None or pred(e)):
                # a value that is only nearly equal must not count
                with mp.workdps(1500):
                    e = MpEval(dict(pt))
                    if e.cond(gate) and (pred is None or pred(e)):
                        return pt
        except (Undefined, KeyError):
            continue
    return None


def guards(terms):
    """conditions of the conditional nodes below terms with the nearest enclosing branch conditions: [(cond, context)]"""
    roots = [t for t in terms if isinstance(t, T)]
    order, state = [], {}
    st = [(t, False) for t in roots]
    while st:
        x, done = st.pop()
        if done:
            order.append(x)
            continue
        if x.id in state:
            continue
        state[x.id] = 1
        st.append((x, True))
        st.extend((a, False) for a in x.args if isinstance(a, T) and a.id not in state)
    ctx = {t.id: True for t in roots}
    out = []
    for x in reversed(order):
        g = ctx.get(x.id, False)
        if isinstance(g, B) and len(bsupport(g)) > 8:
            g = True
        if x.op == 'ite':
            c = x.args[0]
            out.append((c, g))
            arms = ((x.args[1], band(g, c)), (x.args[2], band(g, bnot(c))))
        else:
            arms = [(a, g) for a in x.args]
        for y, h in arms:
            if isinstance(y, T) and ctx.get(y.id) is not True:
                ctx[y.id] = bor(ctx.get(y.id, False), h)
    return out


def pt_show(pt):
    return {k: (mp.nstr(v, 12) if not isinstance(v, int) else v) for k, v in sorted(pt.items()) if not k.startswith('__')}


TOL = mp.mpf(10) ** -9


def differ(u, v):
    """relative disagreement of two high-precision values"""
    if mp.isnan(u) or mp.isnan(v):
        return not (mp.isnan(u) and mp.isnan(v))
    if mp.isinf(u) or mp.isinf(v):
        return u != v
    if isinstance(u, mp.mpc) or isinstance(v, mp.mpc):
        # outside the real domain
        return False
    m = max(abs(u), abs(v))
    return abs(u - v) > TOL * m and abs(u - v) > mp.mpf(10) ** -360


def valuations(n, seed, sy, sp, iv, rel, eqp):
    for k, pt in enumerate(Sampler(sy, seed, sp).points(n)):
        rnd = random.Random('e%s%d' % (seed, k))
        for i in iv:
            ks = [int(x) for x in sp.get(i.args[0], ())]
            c = rnd.choice(ks) + rnd.choice([-1, 0, 1]) if ks and rnd.random() < 0.7 else anyint(i, rnd)
            pt[i.args[0]] = min(max(c, i.lo), i.hi)
        if k & 1 and rel:
            relate(pt, rel, rnd)
        if eqp:
            merge(pt, eqp, rnd, (0.5, 0.9)[k & 1])
        yield pt


def symsym(vs):
    return [(ATOMS[v][1].args[0], ATOMS[v][2].args[0]) for v in sorted(vs) if ATOMS[v][0] == 'eq' and ATOMS[v][1].op == 'sym' and ATOMS[v][2].op == 'sym']


COINCIDE = [False]        # look at coincidences of computed values too (checks of the filtering code; designs are too large)


def coincidence(eqs, gate, pairs, sign=False, cond=None, tries=12):
    """look for a disagreement of the pairs where the computed values compared by the eq-atoms coincide: (point, pair, u, v)"""
    for v in eqs:
        gate = band(gate, bmk(v, True, False))
    if not feasible(gate):
        return None
    conds = {}
    for a, b in pairs:
        conds.update(ites_of(a))
        conds.update(ites_of(b))
    allv = set(bsupport(gate))
    for c in conds.values():
        allv |= bsupport(c)
    sy = input_syms([x for p in pairs for x in p] + [gate] + list(conds.values()))
    eqp = symsym(allv)
    hit = 0
    for k, pt in enumerate(valuations(tries, 'coincide', sy, special_values(allv), isyms([gate] + list(conds.values())), related(sy), ())):
        rnd = random.Random('c%d' % k)
        fixed = merge(pt, eqp, rnd, (0.5, 1.0)[k & 1]) if eqp else set()
        plan = pick(eqs, sy, rnd, fixed) or pick(eqs, sy, rnd, set())
        if plan is None:
            continue
        vals = []
        for dps in (60, 400):
            with mp.workdps(dps):
                q = dict(pt)
                if not solve(q, plan, sy):
                    break
                try:
                    e = MpEval(dict(q))
                    if not e.cond(gate) or (cond is not None and not cond(e)):
                        break
                    bad = None
                    for i, (a, b) in enumerate(pairs):
                        u, v = e.ev(a), e.ev(b)
                        if differ(u, v) and not (sign and not differ(u, -v)):
                            bad = (q, i, u, v)
                            break
                except (Undefined, KeyError):
                    break
                if bad is None:
                    hit += 1
                    break
                vals.append(bad)
        if len(vals) == 2 and vals[0][1] == vals[1][1] and not differ(vals[0][2], vals[1][2]) and not differ(vals[0][3], vals[1][3]):
            return vals[1]
        if hit >= 5:
            break
    return None


def find_coincident(gate, tries=12):
    """a valuation under which gate holds because computed values coincide (None if none found)"""
    if not isinstance(gate, B) or not feasible(gate):
        return None
    for v in sorted(bsupport(gate)):
        if is_computed_eq(v):
            w = coincidence([v], gate, [(ONE, ZERO)], tries=tries)
            if w is not None:
                return w[0]
    return None


class Verdict:
    __slots__ = ('ok', 'how', 'witness', 'detail')

    def __init__(self, ok, how, witness=None, detail=''):
        self.ok, self.how, self.witness, self.detail = ok, how, witness, detail


def generic(gate, pairs):
    """leave out coincidences of two computed values (measure zero) that cannot be solved for an input"""
    vs = set(bsupport(gate)) if isinstance(gate, B) else set()
    for p in pairs:
        for t in p:
            for c in ites_of(t).values():
                vs |= bsupport(c)
    vs = [v for v in sorted(vs) if is_computed_eq(v)]
    if not vs:
        return gate, pairs, None
    for v in vs:
        g = bcof(gate, v, False)
        if g is not False:
            gate = g
            memo = {}
            pairs = [(cofactor(a, v, False, memo), cofactor(b, v, False, memo)) for a, b in pairs]
    idx = [i for i, (a, b) in enumerate(pairs) if a is not b]
    return gate, [pairs[i] for i in idx], idx


def decide_eq(gate, pairs, npoints=6, sign=False, maxcase=64, algebra=True, names=None, nsearch=60, cond=None, retries=3000, coincide=None):
    """Are the paired terms equal as functions of the inputs wherever gate holds?

    ok=True  : every guarded case is an algebraic identity (how='algebraic'), or
               agrees at all sampled points but could not be normalised (how='sampled')
    ok=False : a valuation inside the gate at which they differ."""
    if coincide is None:
        coincide = COINCIDE[0]
    if names:
        names = [nm for nm, (a, b) in zip(names, pairs) if a is not b]
    pairs = [(a, b) for a, b in pairs if a is not b]
    if not pairs or not feasible(gate):
        return Verdict(True, 'syntactic')
    g2, p2, nm = generic(gate, pairs)
    if nm is None:
        return decide_cases(gate, pairs, gate, pairs, npoints, sign, maxcase, algebra, names, nsearch, cond, retries, coincide)
    v = decide_cases(g2, p2, gate, [pairs[i] for i in nm], npoints, sign, maxcase, algebra, names and [names[i] for i in nm], nsearch, cond, retries, coincide)
    if v.ok and coincide:
        for a in sorted((bsupport(gate) if isinstance(gate, B) else set()).union(*[bsupport(c) for p in pairs for t in p for c in ites_of(t).values()])):
            if is_computed_eq(a):
                w = coincidence([a], gate, pairs, sign, cond)
                if w is not None:
                    pt, i, x, y = w
                    return Verdict(False, 'witness', pt_show(pt), '%s: %s vs %s' % (names[i] if names else 'pair %d' % i, mp.nstr(x, 15), mp.nstr(y, 15)))
    return v


def is_computed_eq(v):
    return ATOMS[v][0] == 'eq' and ATOMS[v][1].op != 'sym' and ATOMS[v][2].op != 'sym' and not special_values({v})


def decide_cases(gate, pairs, gate0, pairs0, npoints, sign, maxcase, algebra, names, nsearch, cond, retries, coincide):
    if not pairs or not feasible(gate):
        return Verdict(True, 'syntactic')
    conds = {}
    for a, b in pairs:
        conds.update(ites_of(a))
        conds.update(ites_of(b))
    vars_ = set()
    for c in conds.values():
        vars_ |= bsupport(c)
    gsup = bsupport(gate) if isinstance(gate, B) else set()
    allv = vars_ | gsup
    sy = input_syms([x for p in pairs for x in p] + [gate] + list(conds.values()))
    rel = related(sy) if allv else []
    iv = isyms([gate] + list(conds.values()))
    sp = special_values(allv)
    eqp = symsym(allv)

    # algebraic proof per guarded case
    order = sorted(vars_)
    cases = []
    g0 = band(gate, AXIOMS[0])

    def enum(i, g, asg):
        if g is False or len(cases) > maxcase:
            return
        if i == len(order):
            cases.append(dict(asg))
            return
        v = order[i]
        bv = bmk(v, True, False)
        for val in (True, False):
            asg[v] = val
            enum(i + 1, band(g, bv if val else bnot(bv)), asg)
        del asg[v]
    enum(0, g0, {})
    many = len(cases) > maxcase

    def case_pairs(asg):
        """the pairs under one assignment of the conditions (None: coincidence of two computed values)"""
        sub_ = {}
        for v, val in asg.items():
            d = ATOMS[v]
            if d[0] == 'eq' and val:
                if d[1].op == 'sym':
                    sub_[d[1].args[0]] = d[2]
                elif d[2].op == 'sym':
                    sub_[d[2].args[0]] = d[1]
                else:
                    return None           # measure zero
        memo = {}
        ps = [(resolve(a, asg, memo), resolve(b, asg, memo)) for a, b in pairs]
        if sub_:
            sm = {}
            ids = {s.id: sub_[s.args[0]] for s in sy if s.args[0] in sub_ and s not in syms_of(sub_[s.args[0]])}
            # the other conditions of the case under the coincidence: contradictory cases are dropped
            g = AXIOMS[0]
            for v, val in asg.items():
                d = ATOMS[v]
                if d[0] in ('eq', 'lt') and ids:
                    x, y = substitute(d[1], ids, sm), substitute(d[2], ids, sm)
                    c = eng.c_eq(x, y) if d[0] == 'eq' else eng.c_lt(x, y)
                    g = band(g, c if val else bnot(c))
                    if g is False:
                        return []
            if not feasible(g):
                return []
            ps = [(substitute(a, ids, sm), substitute(b, ids, sm)) for a, b in ps]
        return [(a, b) for a, b in ps if a is not b]
    if vars_ and not many:
        cp = [case_pairs(asg) for asg in cases]
        # a coincidence of two computed values is looked at by sampling only where it can be solved for an input
        if all(c == [] or (c is None and not any(val and ATOMS[v][0] == 'eq' and special_values({v}) for v, val in asg.items())) for c, asg in zip(cp, cases)):
            return Verdict(True, 'syntactic')

    def confirm(pt, i):
        # cancellation check: the disagreement must persist at high precision
        with mp.workdps(1500):
            e = MpEval(dict(pt))
            if not e.cond(gate0) or (cond is not None and not cond(e)):
                return None
            a, b = pairs0[i]
            u, v = e.ev(a), e.ev(b)
            if differ(u, v) and not (sign and not differ(u, -v)):
                return (pt, i, u, v)
        return None

    def try_point(pt):
        e = MpEval(pt)
        try:
            if not e.cond(gate):
                return None
            if cond is not None and not cond(e):
                return None
            for i, (a, b) in enumerate(pairs):
                u, v = e.ev(a), e.ev(b)
                if differ(u, v) and not (sign and not differ(u, -v)):
                    r = confirm(pt, i)
                    if r is not None:
                        return r
        except Undefined:
            return None
        return False
    seen_ok = 0
    n = npoints if not allv else max(npoints, nsearch)

    def gen_points(n, seed):
        return valuations(n, seed, sy, sp, iv, rel, eqp)

    def fail(w):
        pt, i, u, v = w
        return Verdict(False, 'witness', pt_show(pt), '%s: %s vs %s' % (names[i] if names else 'pair %d' % i, mp.nstr(u, 15), mp.nstr(v, 15)))
    for pt in gen_points(n, 11):
        r = try_point(pt)
        if r is None:
            continue
        if r is False:
            seen_ok += 1
            if seen_ok >= npoints and not allv:
                break
            continue
        return fail(r)
    if not algebra:
        return Verdict(True, 'sampled' if seen_ok else 'vacuous')
    how = 'algebraic'

    def search_case(asg):
        g = gate
        for v, val in asg.items():
            bv = bmk(v, True, False)
            g = band(g, bv if val else bnot(bv))
        hit = 0
        for k, pt in enumerate(gen_points(3000, 'case')):
            e = MpEval(pt)
            try:
                if not e.cond(g):
                    continue
            except Undefined:
                continue
            hit += 1
            r = try_point(pt)
            if r:
                return r
            if hit > 40:
                return None
        if hit == 0 and isinstance(g, B):
            for pt in hunt(g, (), (), sy, iv, sp, eqp, list(gen_points(40, 'case')), feasible=feasible):
                r = try_point(pt)
                if r:
                    return r
        eqs = [v for v, val in asg.items() if val and ATOMS[v][0] == 'eq' and not (ATOMS[v][1].op == 'sym' and ATOMS[v][2].op == 'sym')]
        if hit == 0 and coincide and eqs:
            return coincidence(eqs, g, pairs0, sign, cond)
        return None
    if many:
        return Verdict(True, 'sampled' if seen_ok else 'vacuous', None, 'too many cases')
    for asg in cases:
        ps = case_pairs(asg)
        if ps is None:
            continue
        r = identical(ps, upto='sign' if sign else None, retries=retries) if ps else True
        if r is False:
            w = search_case(asg)
            if w is not None:
                return fail(w)
            how = 'unwitnessed'
        elif r is not True and how == 'algebraic':
            how = 'sampled' if seen_ok else 'vacuous'
    return Verdict(True, how)
