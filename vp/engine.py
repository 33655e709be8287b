"""Flow-, field- and context-sensitive value-flow analysis over LLVM IR.

Forward abstract interpretation with the domain of terms.py.  States are joined
at control-flow merges (values become conditional terms guarded by BDD path
conditions); loops are peeled while the peeled condition is decided by the
domain.  Nothing is executed and no path is enumerated or handed to a solver.
"""
import heapq, json, struct, subprocess, sys
from fractions import Fraction as Fr
import random
import mpmath
from . import terms as t_
from .terms import *

sys.setrecursionlimit(20000)


class P:
    """pointer: object id + byte offset (int or I).  fn: object is ('fn',name)"""
    __slots__ = ('obj', 'off', 'lim')

    def __init__(self, obj, off=0, lim=None):
        self.obj = obj
        self.off = off
        self.lim = lim      # byte range of the array member it was formed in

    def __eq__(self, o):
        return isinstance(o, P) and o.obj == self.obj and (o.off is self.off or o.off == self.off)

    def __hash__(self):
        return hash((self.obj, self.off if isinstance(self.off, int) else id(self.off)))

    def __repr__(self):
        return 'P(%s+%s)' % (self.obj, self.off)


NULL = P('null', 0)


class _U:
    def __repr__(self):
        return 'undef'


U = _U()


class IV:
    """conditional non-double value"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return 'IV(%r,%r,%r)' % (self.c, self.a, self.b)

    def __eq__(self, o):
        return isinstance(o, IV) and o.c is self.c and veq(o.a, self.a) and veq(o.b, self.b)

    def __hash__(self):
        return id(self.c)


def veq(a, b):
    if a is b:
        return True
    if isinstance(a, (P, IV)) or isinstance(b, (P, IV)):
        return a == b if type(a) is type(b) else False
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(veq(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return type(a) is type(b) and a == b
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return False


def vite(c, a, b):
    if c is True or veq(a, b):
        return a
    if c is False:
        return b
    if isinstance(a, T) and isinstance(b, T):
        return tite(c, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(vite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, (bool, B)) and isinstance(b, (bool, B)):
        return bite(c, a, b)
    if isinstance(a, (int, I, B)) and isinstance(b, (int, I, B)):
        la, ha = irange(a)
        lb, hb = irange(b)
        return mki('ite', (c, toI(a), toI(b)), min(la, lb), max(ha, hb))
    return IV(c, a, b)


def toI(a):
    if isinstance(a, bool):
        return int(a)
    if isinstance(a, B):
        return mki('b2i', (a,), 0, 1)
    return a


class Obj:
    __slots__ = ('name', 'size', 'cells', 'bg', 'owner', 'kind', 'loc')

    def __init__(self, name, size, kind, owner, loc=None):
        self.name, self.size, self.kind, self.owner, self.loc = name, size, kind, owner, loc
        self.cells = {}
        self.bg = []

    def clone(self, owner):
        o = Obj(self.name, self.size, self.kind, owner, self.loc)
        o.cells = dict(self.cells)
        o.bg = list(self.bg)
        return o


class State:
    __slots__ = ('gate', 'mem', 'env', 'tok', 'prev', 'exc')
    _n = 0

    def __init__(self, gate, mem, env=None):
        self.gate, self.mem, self.env = gate, mem, env
        State._n += 1
        self.tok = State._n
        self.prev = None
        self.exc = None

    def fork(self, gate):
        s = State(gate, dict(self.mem), list(self.env) if self.env is not None else None)
        s.exc = self.exc
        State._n += 1
        self.tok = State._n      # parent loses ownership too
        return s

    def wobj(self, oid):
        o = self.mem[oid]
        if o.owner != self.tok:
            o = o.clone(self.tok)
            self.mem[oid] = o
        return o


class Exc:
    __slots__ = ('kind', 'type', 'loc', 'fn')

    def __init__(self, kind, type_, loc, fn):
        self.kind, self.type, self.loc, self.fn = kind, type_, loc, fn

    def __repr__(self):
        return '%s %s at %s' % (self.kind, self.type, self.loc)


class Fn:
    pass


class Program:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.raw = d['functions']
        self.globals = d['globals']
        self.fns = {}
        self.eh = {}

    def fn(self, name):
        f = self.fns.get(name)
        if f is None:
            r = self.raw.get(name)
            if r is None:
                return None
            f = self.prep(name, r)
            self.fns[name] = f
        return f

    def prep(self, name, r):
        f = Fn()
        f.name, f.dem, f.decl, f.ret = name, r['dem'], r['decl'], r['ret']
        f.loc = r.get('loc', '?')
        f.noreturn = r['noreturn']
        f.raw = r
        if f.decl:
            return f
        f.args, f.n = r['args'], r['n']
        f.blocks = {b['id']: b['i'] for b in r['blocks']}
        f.entry = r['blocks'][0]['id']
        succ = {}
        for b, ins in f.blocks.items():
            L = ins[-1]
            o = L['op']
            if o == 'br':
                s = L['t']
            elif o == 'switch':
                s = [L['d']] + [c[1] for c in L['cases']]
            elif o == 'invoke':
                s = [L['normal'], L['unwind']]
            else:
                s = []
            succ[b] = list(dict.fromkeys(s))
        f.succ = succ
        # RPO (iterative)
        order, seen = [], set()
        st = [(f.entry, iter(succ[f.entry]))]
        seen.add(f.entry)
        while st:
            b, it = st[-1]
            for x in it:
                if x not in seen:
                    seen.add(x)
                    st.append((x, iter(succ[x])))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        # dominators
        idx = {b: i for i, b in enumerate(order)}
        preds = {b: [] for b in order}
        for b in order:
            for x in succ[b]:
                preds[x].append(b)
        dom = {order[0]: {order[0]}}
        alls = set(order)
        for b in order[1:]:
            dom[b] = alls
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [dom[p] for p in preds[b]]
                nd = set.intersection(*ps) | {b} if ps else {b}
                if nd != dom[b]:
                    dom[b] = nd
                    ch = True
        loops = {}
        for b in order:
            for x in succ[b]:
                if x in dom[b]:         # back edge b->x
                    body = loops.setdefault(x, {x})
                    st = [b]
                    while st:
                        y = st.pop()
                        if y not in body:
                            body.add(y)
                            st.extend(preds[y])
        f.loops = loops
        # contiguous ordering: topological order over the loop forest
        nest = {b: [] for b in order}
        for h in sorted(loops, key=lambda h: -len(loops[h])):
            for b in loops[h]:
                nest[b].append(h)
        f.nest = nest
        f.idx = idx
        for b in order:
            for x in succ[b]:
                if idx[x] <= idx[b] and x not in dom[b]:
                    raise Incomplete('irreducible flow in %s' % f.dem)
        return f


# ------------------------------------------------------------------ comparisons
class Ctx:
    """numeric sample points used to canonicalise atoms and decide identities"""

    def __init__(self, seed=1):
        self.seed = seed
        self.evs = None

    def more(self, a, b):
        """do two terms that agree at the first points agree at further ones (other signs)?"""
        for k in range(3, 11):
            e = MpEval({'__seed': k}, default=lambda t: self.draw(t, k))
            try:
                u, v = e.ev(a), e.ev(b)
            except (Undefined, RecursionError):
                continue
            if mpmath.isnan(u) or mpmath.isnan(v):
                continue
            if u != v and abs(u - v) > mp.mpf(10)**-42 * (abs(u) + abs(v)) and abs(u - v) > mp.mpf(10)**-48:
                return False
        return True

    def points(self):
        if self.evs is None:
            self.evs = [MpEval({'__seed': 1}, default=lambda t: self.draw(t, 1)), MpEval({'__seed': 2}, default=lambda t: self.draw(t, 2))]
        return self.evs

    def draw(self, t, k):
        lo, hi = SYM[t.id][0], SYM[t.id][1]
        r = random.Random('%s/%s/%s' % (t.args[0], k, self.seed))
        if lo == -INF and hi == INF:
            lo, hi = -2.0, 2.0
        elif lo == -INF:
            lo = hi - 2
        elif hi == INF:
            hi = lo + 3
        return mpmath.mpf(lo) + (mpmath.mpf(hi) - lo) * (mpmath.mpf(r.random()) * mpmath.mpf('0.98') + mpmath.mpf('0.0123456789'))

    def fingerprint(self, t):
        """tuple of values at the sample points; None if undefined"""
        r = []
        for e in self.points():
            try:
                v = e.ev(t)
            except (Undefined, RecursionError):
                return None
            if mpmath.isnan(v) or mpmath.isinf(v):
                return None
            r.append(v)
        return r


CTX = Ctx()


def fp_zero(a, b):
    """(identically_equal, canonical key of a-b up to sign, signed key)"""
    x = CTX.fingerprint(a)
    y = CTX.fingerprint(b)
    if x is None or y is None:
        return None, None, None
    z = True
    ks = []
    for u, v in zip(x, y):
        d = u - v
        if abs(d) > mp.mpf(10)**-42 * (abs(u) + abs(v)) and abs(d) > mp.mpf(10)**-48:
            z = False
        ks.append(d)
    if z:
        if CTX.more(a, b):
            return True, None, None
        return None, None, None
    s = tuple(mp.nstr(d, 30) for d in ks)
    n = tuple(mp.nstr(-d, 30) for d in ks)
    return False, min(s, n), s


def has_ite(t):
    return t.op == 'ite'


def push_ite(f, a, b):
    if a.op == 'ite':
        return bite(a.args[0], push_ite(f, a.args[1], b), push_ite(f, a.args[2], b))
    if b.op == 'ite':
        return bite(b.args[0], push_ite(f, a, b.args[1]), push_ite(f, a, b.args[2]))
    return f(a, b)


class _Wide(Exception):
    pass


def split_ite(f, a, b):
    """compare terms with conditional sub-terms case by case: numeric identity testing is only
    meaningful for single analytic pieces"""
    if t_.MODE != 'R' or is_sp(a) or is_sp(b):
        return push_ite(f, a, b)
    n = [0]

    def go(x, y, asg):
        c = ites_of(x)
        c.update(ites_of(y))
        vs = set()
        for q in c.values():
            vs |= bsupport(q)
        if not vs:
            n[0] += 1
            if n[0] > 48:
                raise _Wide()
            return f(x, y)
        v = min(vs)
        bv = bmk(v, True, False)
        r = []
        for val in (True, False):
            g = band(asg, bv if val else bnot(bv))
            r.append(go(cofactor(x, v, val), cofactor(y, v, val), g) if feasible(g) else False)
        return bite(bv, r[0], r[1])
    try:
        return go(a, b, True)
    except _Wide:
        # too many pieces: an uninterpreted condition
        k = 'eqs' if f is _eq else 'lts'
        if f is _eq and a.id > b.id:
            a, b = b, a
        return atom((k, a.id, b.id), ('eq' if f is _eq else 'lt', a, b))


_cmpmemo = {}


def c_eq(a, b):
    k = ('eq', a.id, b.id)
    r = _cmpmemo.get(k)
    if r is None:
        r = split_ite(_eq, a, b)
        _cmpmemo[k] = r
    return r


def c_lt(a, b):
    k = ('lt', a.id, b.id)
    r = _cmpmemo.get(k)
    if r is None:
        r = split_ite(_lt, a, b)
        _cmpmemo[k] = r
    return r


def mayinf(t):
    """can the term be infinite in R mode? only syms declared so"""
    return False


def _lin_cmp(a, b):
    """sign of a-b if the declared ranges fix it (-1, 1; 0 for identical linear forms; None unknown)"""
    x = linear(a)
    y = linear(b) if x is not None else None
    if y is None:
        return None
    d = dict(x)
    for k, c in y.items():
        c = d.get(k, 0) - c
        if c:
            d[k] = c
        else:
            d.pop(k, None)
    if not d:
        return 0
    (lo, la), (hi, ha) = linrange(d)
    if hi < 0 or (hi == 0 and not ha):
        return -1
    if lo > 0 or (lo == 0 and not la):
        return 1
    return None


def _eq(a, b):
    if a is b:
        return a is not NAN
    if is_sp(a) or is_sp(b):
        if flt(a) is not None and flt(b) is not None:
            return flt(a) == flt(b)
        s = b if is_sp(a) else a
        if t_.MODE == 'R':
            return False
        return atom(('eq', min(a.id, b.id), max(a.id, b.id)), ('eq', a, b))
    if is_c(a) and is_c(b):
        return a.args[0] == b.args[0]
    (l1, h1), (l2, h2) = rng(a), rng(b)
    if h1 < l2 or h2 < l1:
        return False
    for x, y in ((a, b), (b, a)):
        if x.op == 'sym':
            lo, hi, _, lop, hop, _ = SYM[x.id]
            l, h = rng(y)
            if (lop and h <= lo) or (hop and l >= hi):
                return False
    if t_.MODE == 'R':
        r = _lin_cmp(a, b)
        if r is not None and r != 0:
            return False
        x, y = (a, b) if b is ONE else (b, a)
        if y is ONE and x.op == 'pow' and is_c(x.args[0]) and x.args[0].args[0] > 1:
            return c_eq(x.args[1], ZERO)
        z, key, _ = fp_zero(a, b)
        if z is True:
            return True
        if not syms_of(a) and not syms_of(b) and z is False:
            return False
        if z is False:
            return atom(('eq', key), ('eq', a, b))
    return atom(('eqs', min(a.id, b.id), max(a.id, b.id)), ('eq', a, b))


def _lt(a, b):
    if a is b or a is NAN or b is NAN:
        return False
    x, y = flt(a), flt(b)
    if x is not None and y is not None:
        if is_c(a) and is_c(b):
            return a.args[0] < b.args[0]
        return x < y
    if t_.MODE == 'R' and (is_sp(a) or is_sp(b)):
        if is_sp(a):
            return x < 0
        return y > 0
    (l1, h1), (l2, h2) = rng(a), rng(b)
    if h1 < l2:
        return True
    if l1 >= h2 and not (l1 == h2 == -INF):
        return False

    def opn(s, which):
        # strictness of an end point for sym or neg sym
        if s.op == 'sym':
            return SYM[s.id][4] if which == 'hi' else SYM[s.id][3]
        return False
    if h1 == l2 and (opn(a, 'hi') or opn(b, 'lo')) and abs(h1) != INF:
        return True
    if t_.MODE == 'R':
        r = _lin_cmp(a, b)
        if r is not None:
            return r < 0
        z, key, skey = fp_zero(a, b)
        if z is True:
            return False
        if not syms_of(a) and not syms_of(b) and z is False:
            v = CTX.fingerprint(a)[0] - CTX.fingerprint(b)[0]
            return bool(mp.re(v) < 0)
        if z is False and not (is_c(a) or is_c(b)):
            return atom(('lt', skey), ('lt', a, b))
    return atom(('lts', a.id, b.id), ('lt', a, b))


def finite_(t, memo={}):
    """F mode: provably finite and not NaN from declared bounds"""
    r = memo.get((t.id, t_.MODE))
    if r is not None:
        return r
    o = t.op
    if o == 'c' or o == 'k':
        r = True
    elif o == 'sp':
        r = False
    elif o == 'sym':
        s = SYM[t.id]
        r = (not s[5]) and abs(s[0]) < 1e200 and abs(s[1]) < 1e200
    elif o in ('i2d',):
        r = True
    else:
        r = all(finite_(x) for x in t.args if isinstance(x, T))
        if r:
            l, h = rng(t)
            big = abs(l) < 1e300 and abs(h) < 1e300
            if o in ('sin', 'cos', 'fabs', 'atan', 'f32', 'ite'):
                r = True
            elif o == '/':
                l2, h2 = rng(t.args[1])
                r = big and (l2 > 0 or h2 < 0)
            elif o == 'sqrt':
                r = rng(t.args[0])[0] >= 0 and big
            elif o in ('+', '-', '*', 'neg', 'exp'):
                r = big
            else:
                r = False
    memo[(t.id, t_.MODE)] = r
    return r


def c_nan(t):
    if t is NAN:
        return True
    if t_.MODE == 'R':
        return False
    if t.op in ('c', 'k', 'sp', 'i2d'):
        return False
    if t.op == 'sym':
        if not SYM[t.id][5]:
            return False
        if SYM[t.id][0] > SYM[t.id][1]:     # declared "is NaN"
            return True
    if t.op in ('neg', 'fabs', 'f32'):
        return c_nan(t.args[0])
    if t.op == 'ite':
        return bite(t.args[0], c_nan(t.args[1]), c_nan(t.args[2]))
    if finite_(t):
        return False
    return atom(('nan', t.id), ('nan', t))


def fcmp(pred, a, b):
    if pred == 'true':
        return True
    if pred == 'false':
        return False
    if t_.MODE == 'R':
        un = a is NAN or b is NAN
        if pred in ('ord', 'uno'):
            return un == (pred == 'uno')
        p = pred[1:]
        if un:
            return pred[0] == 'u'
        return {'eq': lambda: c_eq(a, b), 'ne': lambda: bnot(c_eq(a, b)), 'lt': lambda: c_lt(a, b),
                'gt': lambda: c_lt(b, a), 'le': lambda: bnot(c_lt(b, a)), 'ge': lambda: bnot(c_lt(a, b))}[p]()
    un = bor(c_nan(a), c_nan(b))
    if pred == 'uno':
        return un
    if pred == 'ord':
        return bnot(un)
    p = pred[1:]
    base = {'eq': lambda: c_eq(a, b) if a is not b else True, 'ne': lambda: bnot(c_eq(a, b) if a is not b else True), 'lt': lambda: c_lt(a, b),
            'gt': lambda: c_lt(b, a), 'le': lambda: bnot(c_lt(b, a)), 'ge': lambda: bnot(c_lt(a, b))}[p]()
    if pred[0] == 'o':
        return band(bnot(un), base)
    return bor(un, base)


# ------------------------------------------------------------------ integers
def ithr(i, k):
    """BDD for  i < k  (i symbolic, k const)"""
    lo, hi = i.lo, i.hi
    if hi < k:
        return True
    if lo >= k:
        return False
    if i.op == 'ite':
        c, a, b = i.args
        return bite(c, ilt(a, k), ilt(b, k))
    if i.op == 'b2i':
        return bnot(i.args[0]) if k == 1 else (k > 1)
    if i.op == 'add' and isinstance(i.args[1], int):
        return ilt(i.args[0], k - i.args[1])
    if i.op == 'sub' and isinstance(i.args[1], int):
        return ilt(i.args[0], k + i.args[1])
    if i.op == 'mul' and isinstance(i.args[1], int) and i.args[1] > 0:
        c = i.args[1]
        return ilt(i.args[0], -((-k) // c))
    if i.op == 'sub' and isinstance(i.args[0], int) and isinstance(i.args[1], I):
        return bnot(ilt(i.args[1], i.args[0] - k + 1))    # c-x<k  <=> x>c-k
    v = atom(('ithr', id(i), k), ('icmp', 'slt', i, k))
    L = _ithr.setdefault(id(i), {})
    if k not in L:
        for k2, v2 in L.items():
            AXIOMS[0] = band(AXIOMS[0], bor(bnot(v), v2) if k < k2 else bor(bnot(v2), v))
        L[k] = v
    return v


_ithr = {}


def ilt(a, b):
    if isinstance(a, IV):
        return bite(a.c, ilt(a.a, b), ilt(a.b, b))
    if isinstance(b, IV):
        return bite(b.c, ilt(a, b.a), ilt(a, b.b))
    a, b = toI(a), toI(b)
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    la, ha = irange(a)
    lb, hb = irange(b)
    if ha < lb:
        return True
    if la >= hb:
        return False
    if isinstance(b, int):
        return ithr(a, b)
    if isinstance(a, int):
        return bnot(ithr(b, a + 1))
    if a is b:
        return False
    for x, f in ((a, lambda y: ilt(y, b)),):
        if x.op == 'ite':
            return bite(x.args[0], ilt(x.args[1], b), ilt(x.args[2], b))
    if b.op == 'ite':
        return bite(b.args[0], ilt(a, b.args[1]), ilt(a, b.args[2]))
    return atom(('ilt', id(a), id(b)), ('icmp', 'slt', a, b))


def ieq(a, b):
    if isinstance(a, IV):
        return bite(a.c, ieq(a.a, b), ieq(a.b, b))
    if isinstance(b, IV):
        return bite(b.c, ieq(a, b.a), ieq(a, b.b))
    a, b = toI(a), toI(b)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if a is b:
        return True
    la, ha = irange(a)
    lb, hb = irange(b)
    if ha < lb or hb < la:
        return False
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if a.op in ('and', 'srem', 'urem', 'or', 'xor'):
            e = ienum(a)
            if e is not None:
                r = False
                for c, v in e:
                    if v == b:
                        r = bor(r, c)
                return r
        if a.op in ('sym', 'ite', 'b2i', 'add', 'sub', 'd2i') or True:
            return band(bnot(ilt(a, b)), ilt(a, b + 1))
    return atom(('ieq', min(id(a), id(b)), max(id(a), id(b))), ('icmp', 'eq', a, b))


def ienum(i, limit=80):
    """[(cond,value)] for a small-range symbolic integer, else None"""
    if isinstance(i, bool):
        return [(True, int(i))]
    if isinstance(i, int):
        return [(True, i)]
    if isinstance(i, B):
        return [(i, 1), (bnot(i), 0)]
    o, a = i.op, i.args
    if o == 'ite':
        x, y = ienum(a[1], limit), ienum(a[2], limit)
        if x is None or y is None:
            return None
        r = [(band(a[0], c), v) for c, v in x] + [(band(bnot(a[0]), c), v) for c, v in y]
    elif o == 'b2i':
        r = [(a[0], 1), (bnot(a[0]), 0)]
    elif o == 'sym' or i.hi - i.lo < limit and o not in ('add', 'sub', 'mul', 'sdiv', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem'):
        if i.hi - i.lo >= limit:
            return None
        r = [(band(bnot(ilt(i, v)), ilt(i, v + 1)), v) for v in range(i.lo, i.hi + 1)]
    else:
        xs = [ienum(x, limit) for x in a]
        if any(x is None for x in xs) or len(xs) != 2:
            return None
        r = []
        for c1, v1 in xs[0]:
            for c2, v2 in xs[1]:
                c = band(c1, c2)
                if c is not False:
                    try:
                        r.append((c, ibin_const(o, v1, v2, 64)))
                    except ZeroDivisionError:
                        pass
        if len(r) > limit * 4:
            return None
    m = {}
    for c, v in r:
        m[v] = bor(m.get(v, False), c)
    return [(c, v) for v, c in m.items() if c is not False]


def wrap(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def ibin_const(o, x, y, w):
    if o == 'add':
        r = x + y
    elif o == 'sub':
        r = x - y
    elif o == 'mul':
        r = x * y
    elif o == 'sdiv':
        q = abs(x) // abs(y)
        r = q if (x >= 0) == (y >= 0) else -q
    elif o == 'srem':
        q = abs(x) % abs(y)
        r = q if x >= 0 else -q
    elif o == 'udiv':
        m = (1 << w) - 1
        r = (x & m) // (y & m)
    elif o == 'urem':
        m = (1 << w) - 1
        r = (x & m) % (y & m)
    elif o == 'and':
        r = x & y
    elif o == 'or':
        r = x | y
    elif o == 'xor':
        r = x ^ y
    elif o == 'shl':
        r = x << y if y < w else 0
    elif o == 'lshr':
        r = (x & ((1 << w) - 1)) >> y
    elif o == 'ashr':
        r = x >> y
    else:
        raise Incomplete('int op ' + o)
    return r


def width(ty):
    return int(ty[1:]) if isinstance(ty, str) and ty[0] == 'i' else 64


# ------------------------------------------------------------------ libm table
LIBM1 = {'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'exp': 'exp', 'log': 'log', 'sqrt': 'sqrt', 'sinh': 'sinh', 'cosh': 'cosh',
         'tanh': 'tanh', 'asinh': 'asinh', 'acosh': 'acosh', 'atanh': 'atanh', 'atan': 'atan', 'asin': 'asin', 'acos': 'acos',
         'fabs': 'fabs', 'floor': 'floor', 'ceil': 'ceil', 'trunc': 'trunc', 'round': 'round', 'log10': 'log10', 'log2': 'log2',
         'exp2': 'exp2', 'exp10': 'exp10', 'expm1': 'expm1', 'log1p': 'log1p', 'cbrt': 'cbrt', 'rint': 'rint', 'nearbyint': 'nearbyint'}
LIBM2 = {'pow': 'pow', 'hypot': 'hypot', 'atan2': 'atan2', 'fmod': 'fmod', 'remainder': 'remainder'}
PURE_EXT = set(LIBM1) | set(LIBM2) | {x + 'f' for x in list(LIBM1) + list(LIBM2)} | {
    'fma', 'fmin', 'fmax', 'cabs', 'csqrt', 'cexp', 'cpow', 'clog', 'carg', '__muldc3', '__divdc3', '__mulsc3', '__divsc3',
    'memcpy', 'memmove', 'memset', 'strlen', 'memcmp', 'copysign', 'ldexp', 'frexp', 'sincos', 'lround', 'lrint', 'isnan', 'isinf',
    '__isnan', '__isinf', '__finite', 'cabsf', 'polar', 'ccos', 'csin', 'fdim', 'fmaf', 'fminf', 'fmaxf', 'modf', 'ilogb', 'logb', 'scalbn', 'abs'}


def f1(name, x):
    if x.op == 'ite' and t_.MODE == 'R' and name in ('sqrt', 'fabs'):
        return tite(x.args[0], f1(name, x.args[1]), f1(name, x.args[2]))
    if t_.MODE == 'R':
        if name == 'log10':
            return div(fn('log', x), LN10)
        if name == 'log2':
            return div(fn('log', x), LN2)
        if name == 'exp2':
            return fn('exp', mul(x, LN2))
        if name == 'exp10':
            return fn('exp', mul(x, LN10))
        if name == 'expm1':
            return sub(fn('exp', x), ONE)
        if name == 'log1p':
            return fn('log', add(ONE, x))
        if name == 'cbrt':
            return fn('pow', x, C(Fr(1, 3)))
        if name == 'fabs':
            r = fn('fabs', x)
            if r.op == 'fabs':
                return tite(c_lt(x, ZERO), neg(x), x)
            return r
        if name == 'asinh':
            return fn('log', add(x, fn('sqrt', add(mul(x, x), ONE))))
    return fn(name, x)


def csqrt(x, y):
    if t_.MODE == 'R' and y is ZERO:
        c = c_lt(x, ZERO)
        return (tite(c, ZERO, f1('sqrt', x) if c is not True else ZERO), tite(c, f1('sqrt', neg(x)) if c is not False else ZERO, ZERO))
    return (mk('csqrt_re', x, y), mk('csqrt_im', x, y))


def cmul(a, b, c, d):
    return (sub(mul(a, c), mul(b, d)), add(mul(a, d), mul(b, c)))


def cdiv(a, b, c, d):
    if t_.MODE == 'R':
        if d is ZERO:
            return (div(a, c), div(b, c))
        m = add(mul(c, c), mul(d, d))
        return (div(add(mul(a, c), mul(b, d)), m), div(sub(mul(b, c), mul(a, d)), m))
    return (mk('cdiv_re', a, b, c, d), mk('cdiv_im', a, b, c, d))


TI_PARENT = {'_ZTISt16invalid_argument': '_ZTISt11logic_error', '_ZTISt12out_of_range': '_ZTISt11logic_error', '_ZTISt12domain_error': '_ZTISt11logic_error',
             '_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt11logic_error': '_ZTISt9exception', '_ZTISt13runtime_error': '_ZTISt9exception',
             '_ZTISt9bad_alloc': '_ZTISt9exception', '_ZTISt11range_error': '_ZTISt13runtime_error', '_ZTISt14overflow_error': '_ZTISt13runtime_error'}


class Engine:
    def __init__(self, prog, budget=3000000):
        self.p = prog
        self.events = []
        self.outs = []
        self.snaps = {}
        self.absmap = {}
        self.budget = budget
        self.steps = 0
        self.nobj = 0
        self.stack = []
        self.exits = []
        self.calls = set()
        self.aborts = []
        self.ehid = {}
        self.fresh = 0
        self.visited = set()
        self.loopbound = 5000

    # ---- objects
    def new(self, st, name, size, kind, loc=None):
        self.nobj += 1
        oid = '%s#%d' % (name, self.nobj)
        st.mem[oid] = Obj(name, size, kind, st.tok, loc)
        return oid

    def event(self, kind, st, detail, loc=None):
        self.events.append((kind, st.gate, detail, loc or self.loc(), self.stack[-1] if self.stack else None))

    def loc(self):
        return self.curloc

    def glob(self, st, name):
        oid = '@' + name
        if oid in st.mem:
            return oid
        g = self.p.globals.get(name)
        if g is None:
            st.mem[oid] = Obj(name, None, 'ext', st.tok)
            return oid
        o = Obj(name, g['size'], 'const' if g['const'] else 'global', st.tok, g.get('loc'))
        st.mem[oid] = o
        for e in g.get('init', []):
            if e[1] == 'zero':
                o.bg.append((e[0], e[0] + e[2], 0))
            elif e[1] == 'bytes':
                bs = bytes.fromhex(e[2])
                for i, ch in enumerate(bs):
                    o.cells[e[0] + i] = (1, ch - 256 if ch > 127 else ch)
            else:
                o.cells[e[0]] = (e[2], self.const(e[4], e[3], st))
        return oid

    def cstr(self, st, p):
        p = self.ptr1(p, st)
        o = st.mem[p.obj]
        s = ''
        i = p.off
        while True:
            v = self.loadcell(o, i, 1, 'i8', st)
            if v == 0:
                return s
            s += chr(v)
            i += 1

    # ---- operands
    def const(self, op, ty, st):
        k = op[0]
        if k == 'i':
            v = op[1]
            if isinstance(v, str):
                v = int(v)
            if ty == 'i1':
                return bool(v)
            return v
        if k == 'f':
            return literal(struct.unpack('>d', bytes.fromhex(op[1]))[0])
        if k == 'n':
            return NULL
        if k == 'g':
            nm = op[1]
            if nm in self.p.raw:
                return P('fn:' + nm, 0)
            return P(self.glob(st, nm), op[2])
        if k == 'z':
            return self.zero(op[1])
        if k == 'u':
            return self.undef(op[1])
        if k == 'agg':
            t = op[1]
            if t[0] == 'struct':
                return tuple(self.const(e, f[1], st) for e, f in zip(op[2], t[2]))
            return tuple(self.const(e, t[3], st) for e in op[2])
        raise Incomplete('constant operand %s' % op)

    def zero(self, t):
        if isinstance(t, list):
            if t[0] == 'struct':
                return tuple(self.zero(f[1]) for f in t[2])
            return tuple(self.zero(t[3]) for _ in range(t[1]))
        if t in ('double', 'float', 'x86_fp80'):
            return ZERO
        if t == 'ptr':
            return NULL
        if t == 'i1':
            return False
        return 0

    def undef(self, t):
        if isinstance(t, list):
            if t[0] == 'struct':
                return tuple(self.undef(f[1]) for f in t[2])
            return tuple(self.undef(t[3]) for _ in range(t[1]))
        return U

    def val(self, op, st, ty=None):
        if op[0] == 'l':
            return st.env[op[1]]
        return self.const(op, ty, st)

    # ---- memory
    def alts(self, p, st):
        """pointer value -> [(cond, P with const offset)]"""
        if isinstance(p, P):
            if isinstance(p.off, int):
                return [(True, p)]
            e = ienum(p.off)
            if e is None:
                self.event('unbounded-index', st, 'pointer offset not bounded: %r' % (p,))
                raise Incomplete('unbounded pointer offset at %s' % self.loc())
            r = []
            for c, v in e:
                if feasible(band(st.gate, c)):
                    r.append((c, P(p.obj, v, p.lim)))
            return r
        if isinstance(p, IV):
            r = []
            for c, v in self.alts(p.a, st):
                c = band(p.c, c)
                if feasible(band(st.gate, c)):
                    r.append((c, v))
            nb = bnot(p.c)
            for c, v in self.alts(p.b, st):
                c = band(nb, c)
                if feasible(band(st.gate, c)):
                    r.append((c, v))
            return r
        if p is U:
            self.event('uninit-pointer', st, 'use of an uninitialised pointer')
            raise Incomplete('uninitialised pointer at %s' % self.loc())
        if isinstance(p, int) and p == 0:
            return [(True, NULL)]
        raise Incomplete('not a pointer: %r at %s' % (p, self.loc()))

    def ptr1(self, p, st):
        a = self.alts(p, st)
        if len(a) != 1:
            raise Incomplete('ambiguous pointer at %s' % self.loc())
        return a[0][1]

    def check_access(self, p, sz, st, cond, what):
        if p.obj == 'null':
            self.event('null-deref', State(band(st.gate, cond), {}), what)
            return False
        if p.obj.startswith('fn:'):
            self.event('bad-access', st, what)
            return False
        o = st.mem.get(p.obj)
        if o is None:
            self.event('dangling', State(band(st.gate, cond), {}), what + ' of dead object ' + p.obj)
            return False
        if o.kind == 'freed':
            self.event('use-after-free', State(band(st.gate, cond), {}), what)
            return False
        if o.size is not None and (p.off < 0 or p.off + sz > o.size):
            self.event('out-of-bounds', State(band(st.gate, cond), {}), '%s of %d bytes at offset %d of object %s (size %d)' % (what, sz, p.off, o.name, o.size))
            return False
        if p.lim is not None and (p.off < p.lim[0] or p.off + sz > p.lim[1]):
            self.event('out-of-bounds', State(band(st.gate, cond), {}), '%s of %d bytes at offset %d of object %s, outside the array member at [%d,%d)' % (what, sz, p.off, o.name, *p.lim))
        if what == 'write':
            if o.kind == 'const':
                self.event('write-to-const', State(band(st.gate, cond), {}), o.name)
        return True

    def loadcell(self, o, off, sz, ty, st):
        c = o.cells.get(off)
        if c is not None:
            s, v = c
            if s == sz:
                return v
            if s > sz and isinstance(v, int) and not isinstance(v, bool):
                return wrap(v, sz * 8)
            if s > sz and isinstance(v, tuple):
                pass
        # zero background?
        for lo, hi, byte in reversed(o.bg):
            if lo <= off and off + sz <= hi:
                if any(k < off + sz and k + s > off for k, (s, _) in o.cells.items()):
                    break
                if byte == 0:
                    return self.zero(ty)
                if isinstance(byte, int) and isinstance(ty, str) and ty[0] == 'i':
                    return wrap(int.from_bytes(bytes([byte & 255]) * sz, 'little'), sz * 8)
                break
        if sz > 1 and isinstance(ty, str) and ty[0] == 'i' and c is not None and isinstance(c[1], int):
            # assemble from bytes/smaller ints
            v, i = 0, 0
            while i < sz:
                cc = o.cells.get(off + i)
                if cc is None or not isinstance(cc[1], int):
                    break
                v |= (cc[1] & ((1 << (8 * cc[0])) - 1)) << (8 * i)
                i += cc[0]
            if i == sz:
                return wrap(v, 8 * sz)
        if c is not None:
            raise Incomplete('type-punned load (%s bytes of a %s-byte cell in %s) at %s' % (sz, c[0], o.name, self.loc()))
        for k, (s, v) in o.cells.items():
            if k < off + sz and k + s > off:
                if isinstance(v, int) and k <= off and k + s >= off + sz:
                    return wrap((v & ((1 << (8*s)) - 1)) >> (8 * (off - k)), 8 * sz)
                raise Incomplete('overlapping load in %s at %s' % (o.name, self.loc()))
        return U

    def load(self, p, ty, sz, st):
        if isinstance(ty, list):
            if ty[0] == 'struct':
                return tuple(self.load(self.shift(p, f[0]), f[1], self.tsize(f[1]), st) for f in ty[2])
            return tuple(self.load(self.shift(p, i * ty[2]), ty[3], self.tsize(ty[3]), st) for i in range(ty[1]))
        a = self.alts(p, st)
        res = None
        first = True
        for c, q in a:
            if not self.check_access(q, sz, st, c, 'read'):
                continue
            o = st.mem[q.obj]
            if o.kind == 'ext':
                v = self.opaque(ty, 'ext:' + q.obj + '+%d' % q.off)
            else:
                v = self.loadcell(o, q.off, sz, ty, st)
            if v is U:
                self.event('uninit-read', State(band(st.gate, c), {}), 'read of uninitialised %d bytes at %s+%d' % (sz, o.name, q.off))
                v = self.opaque(ty, 'uninit:%s+%d' % (q.obj, q.off))
            v = self.typed(v, ty, st)
            res = v if first else vite(c, v, res)
            first = False
        if first:
            return self.opaque(ty, 'bad-load@%s' % self.loc())
        if isinstance(res, T) and res.op == 'ite' and st.gate is not True:
            res = self.simp(res, st.gate)
        elif isinstance(res, (IV, I)) and st.gate is not True:
            res = self.simp(res, st.gate)
        return res

    def simp(self, v, g):
        while True:
            if isinstance(v, T) and v.op == 'ite':
                c, a, b = v.args
            elif isinstance(v, IV):
                c, a, b = v.c, v.a, v.b
            elif isinstance(v, I) and v.op == 'ite':
                c, a, b = v.args
            else:
                return v
            if not feasible(band(g, bnot(c))):
                v = a
            elif not feasible(band(g, c)):
                v = b
            else:
                return v

    def typed(self, v, ty, st):
        """reinterpret a cell value for a load of another scalar type"""
        if ty in ('double', 'float'):
            if isinstance(v, T):
                return v
            if isinstance(v, int) and v == 0:
                return ZERO
            if isinstance(v, IV):
                return tite(v.c, self.typed(v.a, ty, st) if v.a is not U else self.opaque(ty, 'uninit'), self.typed(v.b, ty, st) if v.b is not U else self.opaque(ty, 'uninit'))
            if isinstance(v, int):
                return literal(struct.unpack('<d', struct.pack('<q', v))[0])
            return self.opaque(ty, 'cast')
        if ty == 'ptr' and isinstance(v, int) and v == 0:
            return NULL
        if isinstance(v, IV) and (v.a is U or v.b is U):
            if not feasible(band(st.gate, v.c)):
                return v.b
            if not feasible(band(st.gate, bnot(v.c))):
                return v.a
            self.event('uninit-read', State(band(st.gate, v.c if v.a is U else bnot(v.c)), {}), 'read of a value uninitialised on some path')
            return v.b if v.a is U else v.a
        return v

    def opaque(self, ty, tag):
        self.fresh += 1
        n = '?%s?%d' % (tag, self.fresh)
        if isinstance(ty, list):
            if ty[0] == 'struct':
                return tuple(self.opaque(f[1], tag) for f in ty[2])
            return tuple(self.opaque(ty[3], tag) for _ in range(ty[1]))
        if ty in ('double', 'float'):
            return sym(n)
        if ty == 'ptr':
            return P('ext:' + n, 0)
        if ty == 'void':
            return None
        if ty == 'i1':
            return atom(('opq', n), ('opq', n))
        w = width(ty)
        return mki('sym', (n,), -(1 << (w - 1)), (1 << (w - 1)) - 1)

    def tsize(self, ty):
        if isinstance(ty, list):
            return ty[1] if ty[0] == 'struct' else ty[1] * ty[2]
        if ty in ('double', 'ptr'):
            return 8
        if ty == 'float':
            return 4
        if ty == 'x86_fp80':
            return 16
        return max(1, (width(ty) + 7) // 8)

    def narrow(self, p, n):
        if isinstance(p, P) and isinstance(p.off, int):
            return P(p.obj, p.off, (p.off, p.off + n))
        if isinstance(p, IV):
            return IV(p.c, self.narrow(p.a, n), self.narrow(p.b, n))
        return p

    def shift(self, p, d):
        if d == 0:
            return p
        if isinstance(p, P):
            return P(p.obj, self.iadd(p.off, d), p.lim)
        if isinstance(p, IV):
            return IV(p.c, self.shift(p.a, d), self.shift(p.b, d))
        if p is U:
            return U
        raise Incomplete('pointer arithmetic on %r at %s' % (p, self.loc()))

    def iadd(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a + b
        return self.ibin('add', a, b, 64, None)

    def storecell(self, o, off, sz, v):
        cells = o.cells
        c = cells.get(off)
        if c is None or c[0] != sz:
            for k in [k for k, (s, _) in cells.items() if k < off + sz and k + s > off]:
                del cells[k]
        cells[off] = (sz, v)

    def store(self, p, v, ty, sz, st):
        if isinstance(ty, list) and isinstance(v, tuple):
            if ty[0] == 'struct':
                for f, x in zip(ty[2], v):
                    self.store(self.shift(p, f[0]), x, f[1], self.tsize(f[1]), st)
            else:
                for i, x in enumerate(v):
                    self.store(self.shift(p, i * ty[2]), x, ty[3], self.tsize(ty[3]), st)
            return
        a = self.alts(p, st)
        for c, q in a:
            if not self.check_access(q, sz, st, c, 'write'):
                continue
            o = st.wobj(q.obj)
            if o.kind == 'ext':
                continue
            if len(a) == 1:
                nv = v
            else:
                old = self.loadcell(o, q.off, sz, ty, st)
                nv = vite(c, v, old)
            if isinstance(nv, bool):
                nv = int(nv)
            elif isinstance(nv, B):
                nv = toI(nv)
            if nv is U:
                # storing undef: cell becomes uninitialised
                for k in [k for k, (s, _) in o.cells.items() if k < q.off + sz and k + s > q.off]:
                    del o.cells[k]
                continue
            self.storecell(o, q.off, sz, nv)

    def memcpy(self, st, d, s, n):
        if not isinstance(n, int):
            e = ienum(n)
            if e is None or len([1 for c, v in e if feasible(band(st.gate, c))]) != 1:
                raise Incomplete('memcpy of symbolic size at %s' % self.loc())
            n = [v for c, v in e if feasible(band(st.gate, c))][0]
        if n == 0:
            return
        d, s = self.ptr1(d, st), self.ptr1(s, st)
        if not self.check_access(s, n, st, True, 'read') or not self.check_access(d, n, st, True, 'write'):
            return
        so = st.mem[s.obj]
        cells = [(k - s.off, z, v) for k, (z, v) in so.cells.items() if k >= s.off and k + z <= s.off + n]
        bg = [(max(lo, s.off) - s.off, min(hi, s.off + n) - s.off, b) for lo, hi, b in so.bg if lo < s.off + n and hi > s.off]
        do = st.wobj(d.obj)
        self.clear(do, d.off, n)
        for k, z, v in cells:
            do.cells[d.off + k] = (z, v)
        for lo, hi, b in bg:
            do.bg.append((d.off + lo, d.off + hi, b))

    def clear(self, o, off, n):
        for k in [k for k, (s, _) in o.cells.items() if k < off + n and k + s > off]:
            del o.cells[k]
        nb = []
        for lo, hi, b in o.bg:
            if hi <= off or lo >= off + n:
                nb.append((lo, hi, b))
            else:
                if lo < off:
                    nb.append((lo, off, b))
                if hi > off + n:
                    nb.append((off + n, hi, b))
        o.bg = nb

    # ---- integer arithmetic
    def ibin(self, o, a, b, w, ins, nsw=False):
        if a is U or b is U:
            return U
        if isinstance(a, (P, IV)) or isinstance(b, (P, IV)):
            return self.pbin(o, a, b, w)
        if isinstance(a, (bool, B)) and isinstance(b, (bool, B)):
            if o == 'and':
                return band(a, b)
            if o == 'or':
                return bor(a, b)
            if o == 'xor':
                return bxor(a, b)
        a, b = toI(a), toI(b)
        if isinstance(a, T) or isinstance(b, T):
            return self.opaque('i%d' % w, 'punned')
        if isinstance(a, int) and isinstance(b, int):
            try:
                r = ibin_const(o, a, b, w)
            except ZeroDivisionError:
                self.event('int-div-zero', self.cur, '')
                return self.opaque('i%d' % w, 'div0')
            m = wrap(r, w)
            if m != r and nsw:
                self.event('int-overflow', self.cur, '%s %s %s' % (a, o, b))
            return m
        # b2i with constants
        if o in ('and', 'or', 'xor'):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, I) and x.op == 'b2i':
                    if isinstance(y, int):
                        if o == 'and':
                            return x if y & 1 else 0
                        if o == 'xor' and y == 1:
                            return toI(bnot(x.args[0]))
                        if o == 'or' and y == 0:
                            return x
                    if isinstance(y, I) and y.op == 'b2i':
                        f = {'and': band, 'or': bor, 'xor': bxor}[o]
                        return toI(f(x.args[0], y.args[0]))
        if isinstance(a, I) and a.op == 'ite' and isinstance(b, int):
            return vite(a.args[0], self.ibin(o, a.args[1], b, w, ins, nsw), self.ibin(o, a.args[2], b, w, ins, nsw))
        if isinstance(b, I) and b.op == 'ite' and isinstance(a, int):
            return vite(b.args[0], self.ibin(o, a, b.args[1], w, ins, nsw), self.ibin(o, a, b.args[2], w, ins, nsw))
        (la, ha), (lb, hb) = irange(a), irange(b)
        mn, mx = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if o == 'add':
            lo, hi = la + lb, ha + hb
            if isinstance(a, int):
                a, b = b, a
            if b == 0 and isinstance(b, int):
                return a
            if isinstance(a, I) and a.op == 'add' and isinstance(a.args[1], int) and isinstance(b, int):
                return self.ibin('add', a.args[0], a.args[1] + b, w, ins, nsw)
            if isinstance(a, I) and a.op == 'sub' and isinstance(a.args[1], int) and isinstance(b, int):
                return self.ibin('add', a.args[0], b - a.args[1], w, ins, nsw)
        elif o == 'sub':
            lo, hi = la - hb, ha - lb
            if a is b:
                return 0
            if isinstance(b, int):
                return self.ibin('add', a, -b, w, ins, nsw)
        elif o == 'mul':
            v = [x * y for x in (la, ha) for y in (lb, hb)]
            lo, hi = min(v), max(v)
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int) and b == 1:
                return a
            if isinstance(b, int) and b == 0:
                return 0
        elif o == 'sdiv' and isinstance(b, int) and b > 0:
            lo, hi = ibin_const('sdiv', la, b, w), ibin_const('sdiv', ha, b, w)
        elif o == 'srem' and isinstance(b, int) and b > 0:
            lo, hi = (0 if la >= 0 else -(b - 1)), b - 1
        elif o == 'urem' and isinstance(b, int) and b > 0:
            lo, hi = 0, b - 1
        elif o == 'udiv' and isinstance(b, int) and b > 0 and la >= 0:
            lo, hi = la // b, ha // b
        elif o == 'and' and isinstance(b, int) and b >= 0:
            lo, hi = 0, b
        elif o == 'and' and isinstance(a, int) and a >= 0:
            a, b = b, a
            lo, hi = 0, b
        elif o == 'shl' and isinstance(b, int):
            return self.ibin('mul', a, 1 << b, w, ins, nsw)
        elif o in ('lshr', 'ashr') and isinstance(b, int) and la >= 0:
            lo, hi = la >> b, ha >> b
        else:
            lo, hi = mn, mx
        if lo < mn or hi > mx:
            if nsw:
                self.event('int-overflow', self.cur, '%r %s %r may overflow' % (a, o, b))
            return self.opaque('i%d' % w, 'wrap')
        return mki(o, (a, b), lo, hi)

    def pbin(self, o, a, b, w):
        if isinstance(a, IV):
            return vite(a.c, self.ibin(o, a.a, b, w, None), self.ibin(o, a.b, b, w, None))
        if isinstance(b, IV):
            return vite(b.c, self.ibin(o, a, b.a, w, None), self.ibin(o, a, b.b, w, None))
        if o == 'sub' and isinstance(a, P) and isinstance(b, P) and a.obj == b.obj:
            return self.ibin('sub', a.off, b.off, w, None)
        if o in ('add',) and isinstance(a, P):
            return self.shift(a, b) if isinstance(b, int) else P(a.obj, self.iadd(a.off, b))
        if o == 'sub' and isinstance(a, P) and isinstance(b, int):
            return self.shift(a, -b)
        if o == 'add' and isinstance(b, P):
            return self.pbin(o, b, a, w)
        return self.opaque('i%d' % w, 'ptrint')

    def icmp(self, pred, a, b):
        if isinstance(a, IV):
            return bite(a.c, self.icmp(pred, a.a, b), self.icmp(pred, a.b, b))
        if isinstance(b, IV):
            return bite(b.c, self.icmp(pred, a, b.a), self.icmp(pred, a, b.b))
        if a is U or b is U:
            self.event('uninit-branch', self.cur, 'comparison of an uninitialised value')
            return self.opaque('i1', 'undefcmp')
        if isinstance(a, P) or isinstance(b, P):
            if isinstance(a, int):
                a = NULL if a == 0 else P('int', a)
            if isinstance(b, int):
                b = NULL if b == 0 else P('int', b)
            if not isinstance(a, P) or not isinstance(b, P):
                return self.opaque('i1', 'ptrcmp')
            if a.obj == b.obj:
                return self.icmp({'u': 's'}.get(pred[0], pred[0]) + pred[1:] if pred[0] == 'u' else pred, a.off, b.off)
            if pred == 'eq':
                return False
            if pred == 'ne':
                return True
            return self.opaque('i1', 'ptrcmp')
        if isinstance(a, T) or isinstance(b, T):
            return self.opaque('i1', 'punned-cmp')
        if isinstance(a, (bool, B)) and isinstance(b, (bool, B)):
            if pred == 'eq':
                return bnot(bxor(a, b))
            if pred == 'ne':
                return bxor(a, b)
        if pred == 'eq':
            return ieq(a, b)
        if pred == 'ne':
            return bnot(ieq(a, b))
        if pred[0] == 'u':
            la, ha = irange(toI(a))
            lb, hb = irange(toI(b))
            if la < 0 or lb < 0:
                if isinstance(a, int) and isinstance(b, int):
                    m = (1 << 64) - 1
                    a, b = a & m, b & m
                    return {'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b}[pred]
                # unsigned compare, b nonneg const: a<0 is large
                if lb >= 0 and pred in ('ult', 'ule'):
                    r = ilt(a, b) if pred == 'ult' else bnot(ilt(b, a))
                    return band(r, bnot(ilt(a, 0)))
                if lb >= 0 and pred in ('ugt', 'uge'):
                    r = ilt(b, a) if pred == 'ugt' else bnot(ilt(a, b))
                    return bor(r, ilt(a, 0))
                if la >= 0 and pred in ('ugt', 'uge'):
                    return self.icmp({'ugt': 'ult', 'uge': 'ule'}[pred], b, a)
                if la >= 0:
                    return self.icmp({'ult': 'ugt', 'ule': 'uge'}[pred], b, a)
                return self.opaque('i1', 'ucmp')
        p = pred[1:]
        if p == 'lt':
            return ilt(a, b)
        if p == 'gt':
            return ilt(b, a)
        if p == 'le':
            return bnot(ilt(b, a))
        return bnot(ilt(a, b))

    # ---- merging
    def merge(self, states):
        states = [s for s in states if feasible(s.gate)]
        if not states:
            return None
        r = states[0]
        for s in states[1:]:
            r = self.merge2(r, s)
        return r

    def merge2(self, a, b):
        g = bor(a.gate, b.gate)
        c = brestrict(a.gate, g)
        if isinstance(c, bool):
            c = a.gate
        m = State(g, {})
        m.exc = a.exc if a.exc is not None else b.exc
        if a.env is not None:
            ea, eb = a.env, b.env
            m.env = [x if x is y else (vite(c, x, y) if x is not None and y is not None else (x if y is None else y)) for x, y in zip(ea, eb)]
        for oid, oa in a.mem.items():
            ob = b.mem.get(oid)
            if ob is None or ob is oa:
                m.mem[oid] = oa
                continue
            m.mem[oid] = self.mergeobj(c, oa, ob, m)
        for oid, ob in b.mem.items():
            if oid not in a.mem:
                m.mem[oid] = ob
        return m

    def mergeobj(self, c, oa, ob, m):
        if oa.cells == ob.cells and oa.bg == ob.bg:      # cheap path (identity-based eq of values)
            return oa
        o = Obj(oa.name, oa.size, oa.kind if oa.kind == ob.kind else 'freed?', m.tok, oa.loc)
        keys = set(oa.cells) | set(ob.cells)
        if oa.bg == ob.bg:
            o.bg = list(oa.bg)
        else:
            # materialise backgrounds as needed
            o.bg = [x for x in oa.bg if x in ob.bg]
        for k in keys:
            x, y = oa.cells.get(k), ob.cells.get(k)
            if x is None or y is None:
                z = x or y
                try:
                    if x is None:
                        xv = self._bgval(oa, k, z)
                        x = (z[0], xv)
                    else:
                        yv = self._bgval(ob, k, z)
                        y = (z[0], yv)
                except Incomplete:
                    continue
            if x[0] != y[0]:
                raise Incomplete('merge of cells with different widths in %s' % o.name)
            if x[1] is U and y[1] is U:
                continue
            o.cells[k] = (x[0], vite(c, x[1], y[1]))
        if oa.bg != ob.bg:
            for src, other in ((oa, ob), (ob, oa)):
                for lo, hi, byte in src.bg:
                    if (lo, hi, byte) in o.bg:
                        continue
                    # zero background on one side only, nothing on the other: leave as conditional zero for later cells
                    o.bg.append((lo, hi, byte))
        return o

    def _bgval(self, o, k, z):
        sz, v = z
        ty = 'double' if isinstance(v, T) else ('ptr' if isinstance(v, P) or (isinstance(v, IV)) else 'i%d' % (8 * sz))
        r = self.loadcell(o, k, sz, ty, None)
        return r

    # ---- control
    def throw(self, st, exc, throws):
        if feasible(st.gate):
            st.exc = exc
            throws.append(st)

    def call(self, name, args, st, depth=0):
        """returns (state_or_None, value, throws)"""
        f = self.p.fn(name)
        if f is None or f.decl:
            return self.extern(name, f, args, st)
        self.calls.add(name)
        if depth > 120:
            raise Incomplete('recursion in %s' % f.dem)
        self.stack.append(f.name)
        try:
            return self.run(f, args, st, depth)
        finally:
            self.stack.pop()

    def run(self, f, args, st, depth):
        env0 = [None] * f.n
        for i, a in zip(f.args, args):
            env0[i] = a
        s0 = State(st.gate, st.mem, env0)
        s0.exc = None
        State._n += 1
        s0.tok = State._n
        pend = {}
        heap = []
        allocas = []

        def key_of(b, fromkey):
            # loop-iteration context key
            nest = f.nest[b]
            k = []
            i = 0
            for h in nest:
                if fromkey is not None and len(fromkey) > 2 * i + 1 and fromkey[2 * i] == f.idx[h]:
                    it = fromkey[2 * i + 1]
                    k += [f.idx[h], it]
                    i += 1
                else:
                    k += [f.idx[h], 0]
                    fromkey = None
                    i += 1
            k.append(f.idx[b])
            return k

        def push(b, s, frm, frmkey):
            if not feasible(s.gate):
                return
            if frmkey is None:
                k = key_of(b, None)
            else:
                if b in f.loops and frm in f.loops[b] and f.idx[b] <= f.idx[frm]:
                    # back edge: increment b's iteration
                    pos = f.nest[b].index(b)
                    base = list(frmkey[:2 * pos])
                    it = frmkey[2 * pos + 1] + 1
                    if it > self.loopbound:
                        raise Incomplete('loop bound exceeded at %s in %s' % (self.loc(), f.dem))
                    k = base + [f.idx[b], it, f.idx[b]]
                else:
                    k = key_of(b, frmkey)
            s.prev = frm
            k = tuple(k)
            if k not in pend:
                pend[k] = (b, [])
                heapq.heappush(heap, k)
            pend[k][1].append(s)

        push(f.entry, s0, None, None)
        rets = []
        throws = []
        while heap:
            k = heapq.heappop(heap)
            b, states = pend.pop(k)
            ins = f.blocks[b]
            # phis per incoming state
            nphi = 0
            while ins[nphi]['op'] == 'phi':
                nphi += 1
            if nphi:
                for s in states:
                    vals = []
                    for x in ins[:nphi]:
                        for op, pb in x['in']:
                            if pb == s.prev:
                                vals.append(self.val(op, s, x['ty']))
                                break
                        else:
                            raise Incomplete('phi without matching edge')
                    for x, v in zip(ins[:nphi], vals):
                        s.env[x['id']] = v
            s = self.merge(states)
            if s is None:
                continue
            if len(states) > 200:
                raise Incomplete('too many merged states in %s' % f.dem)
            self.block(f, b, ins, nphi, s, k, push, rets, throws, depth)
        if not rets:
            return None, None, throws
        # merge returns
        for s, v in rets:
            s.env = [v]
        m = self.merge([s for s, _ in rets])
        if m is None:
            return None, None, throws
        v = m.env[0]
        m.env = None
        return m, v, throws

    def block(self, f, b, ins, i, s, k, push, rets, throws, depth):
        n = len(ins)
        env = s.env
        self.visited.add((f.name, b))
        while i < n:
            x = ins[i]
            i += 1
            op = x['op']
            if op == 'nop':
                continue
            self.steps += 1
            if self.steps > self.budget:
                raise Incomplete('analysis budget exceeded in %s' % f.dem)
            self.curloc = x.get('loc') or f.loc
            self.cur = s
            if op in ('call', 'invoke'):
                st2, v, thr = self.docall(x, s, depth, f)
                if op == 'invoke':
                    for t in thr:
                        t.env = list(env)
                        push(x['unwind'], t, b, k)
                    if st2 is None:
                        return
                    env[x['id']] = v
                    s.mem, s.gate, s.tok = st2.mem, st2.gate, st2.tok
                    push(x['normal'], s, b, k)
                    return
                throws.extend(thr)
                if st2 is None:
                    return
                s.mem, s.gate, s.tok = st2.mem, st2.gate, st2.tok
                env[x['id']] = v
                continue
            if op == 'ret':
                o = x['ops']
                rets.append((s, self.val(o[0], s, x['oty'][0]) if o else None))
                return
            if op == 'br':
                t = x['t']
                if len(t) == 1:
                    push(t[0], s, b, k)
                    return
                c = self.val(x['c'], s, 'i1')
                c = self.asbool(c)
                self.branch(s, [(c, t[0]), (bnot(c), t[1])], push, b, k)
                return
            if op == 'switch':
                c = self.val(x['c'], s)
                alts, rest = [], True
                for v, blk in x['cases']:
                    e = self.icmp('eq', c, v)
                    alts.append((band(e, rest), blk))
                    rest = band(rest, bnot(e))
                alts.append((rest, x['d']))
                m = {}
                for e, blk in alts:
                    m[blk] = bor(m.get(blk, False), e)
                self.branch(s, [(e, blk) for blk, e in m.items()], push, b, k)
                return
            if op == 'unreachable':
                return
            if op == 'resume':
                throws.append(s)
                return
            if op == 'landingpad':
                sel = 0
                e = s.exc
                hit = None
                for cl in x['clauses']:
                    if cl == 'filter':
                        continue
                    if cl[0] == 'n':
                        hit = '*'
                        sel = self.eh('*')
                        break
                    if cl[0] == 'g' and self.ti_match(e.type, cl[1]):
                        hit = cl[1]
                        sel = self.eh(cl[1])
                        break
                if hit is None and not x['cleanup']:
                    throws.append(s)
                    return
                env[x['id']] = (P('exc:%s' % id(e), 0), sel)
                continue
            env[x['id']] = self.simple(x, op, s, f)

    def eh(self, name):
        return self.ehid.setdefault(name, len(self.ehid) + 1)

    def ti_match(self, thrown, caught):
        seen = set()
        while thrown and thrown not in seen:
            if thrown == caught:
                return True
            seen.add(thrown)
            g = self.p.globals.get(thrown)
            nxt = TI_PARENT.get(thrown)
            if nxt is None and g and 'init' in g:
                for e in g['init']:
                    if e[1] == 'val' and e[4][0] == 'g' and e[4][1].startswith('_ZTI') and e[0] == 16:
                        nxt = e[4][1]
            thrown = nxt
        return False

    def asbool(self, c):
        if isinstance(c, (bool, B)):
            return c
        if c is U:
            self.event('uninit-branch', self.cur, 'branch on an uninitialised value')
            return self.opaque('i1', 'undefbr')
        if isinstance(c, (int, I)):
            return bnot(ieq(c, 0))
        if isinstance(c, IV):
            return bite(c.c, self.asbool(c.a), self.asbool(c.b))
        raise Incomplete('branch on %r' % (c,))

    def branch(self, s, alts, push, b, k):
        live = []
        for c, blk in alts:
            g = band(s.gate, c)
            if feasible(g):
                live.append((g, blk))
        if len(live) == 1:
            # keep the gate unchanged when the branch is implied: avoids blow-up
            push(live[0][1], s, b, k)
            return
        for g, blk in live:
            push(blk, s.fork(g), b, k)

    # ---- plain instructions
    def simple(self, x, op, s, f):
        if op == 'load':
            return self.load(self.val(x['p'], s), x['ty'], x['sz'], s)
        if op == 'store':
            self.store(self.val(x['p'], s), self.val(x['v'], s, x['vty']), x['vty'], x['sz'], s)
            return None
        if op == 'getelementptr':
            p = self.val(x['base'], s)
            if 'arr' in x:
                p = self.narrow(p, x['arr'])
            p = self.shift(p, x['off'])
            for o, sc in x['vars']:
                i = self.val(o, s)
                d = self.ibin('mul', i, sc, 64, None)
                if d is U:
                    self.event('uninit-index', s, 'index is uninitialised')
                    raise Incomplete('uninitialised index')
                if isinstance(d, int):
                    p = self.shift(p, d)
                elif isinstance(p, P):
                    p = P(p.obj, self.iadd(p.off, d), p.lim)
                else:
                    p = IV(p.c, P(p.a.obj, self.iadd(p.a.off, d), p.a.lim), P(p.b.obj, self.iadd(p.b.off, d), p.b.lim))
            return p
        if op == 'alloca':
            n = self.val(x['n'], s)
            return P(self.new(s, 'stack:%s' % f.dem.split('(')[0][-40:], x['size'] * n, 'stack', x.get('loc')), 0)
        if op == 'fneg':
            return neg(self.val(x['ops'][0], s, 'double'))
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            a = self.d(self.val(x['ops'][0], s, x['ty']))
            b = self.d(self.val(x['ops'][1], s, x['ty']))
            if isinstance(a, tuple):
                return tuple(self.farith(op, p, q) for p, q in zip(a, b))
            r = self.farith(op, a, b)
            if x['ty'] == 'float':
                r = self.f32(r)
            return r
        if op == 'fcmp':
            a = self.d(self.val(x['ops'][0], s, x['cty']))
            b = self.d(self.val(x['ops'][1], s, x['cty']))
            return fcmp(x['pred'], a, b)
        if op == 'icmp':
            return self.icmp(x['pred'], self.val(x['ops'][0], s, x['cty']), self.val(x['ops'][1], s, x['cty']))
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            return self.ibin(op, self.val(x['ops'][0], s, x['ty']), self.val(x['ops'][1], s, x['ty']), width(x['ty']), x, op in ('add', 'sub', 'mul'))
        if op in ('zext', 'sext'):
            v = self.val(x['ops'][0], s, x['oty'][0])
            if isinstance(v, (bool, B)):
                v = toI(v)
                if op == 'sext':
                    return self.ibin('sub', 0, v, 64, None)
                return v
            if op == 'zext' and isinstance(v, int) and v < 0:
                return v & ((1 << width(x['oty'][0])) - 1)
            if op == 'zext' and isinstance(v, I) and v.lo < 0:
                return self.opaque(x['ty'], 'zext')
            return v
        if op == 'trunc':
            v = self.val(x['ops'][0], s, x['oty'][0])
            w = width(x['ty'])
            if isinstance(v, int):
                v = v & ((1 << w) - 1)
                return bool(v) if w == 1 else wrap(v, w)
            if isinstance(v, I):
                if w == 1:
                    if v.op == 'b2i':
                        return v.args[0]
                    if v.lo >= 0 and v.hi <= 1:
                        return bnot(ieq(v, 0))
                    return self.opaque('i1', 'trunc')
                if v.lo >= -(1 << (w - 1)) and v.hi < (1 << (w - 1)):
                    return v
                return self.opaque(x['ty'], 'trunc')
            return v
        if op == 'select':
            c = self.asbool(self.val(x['ops'][0], s, 'i1'))
            a = self.val(x['ops'][1], s, x['ty'])
            b = self.val(x['ops'][2], s, x['ty'])
            g = s.gate
            if not feasible(band(g, c)):
                return b
            if not feasible(band(g, bnot(c))):
                return a
            return vite(c, a, b)
        if op in ('sitofp', 'uitofp'):
            v = self.val(x['ops'][0], s, x['oty'][0])
            r = self.i2d(v)
            if x['ty'] == 'float' and r.op != 'c':
                lo, hi = irange(v) if isinstance(v, (I, int)) else (-INF, INF)
                if lo < -2**24 or hi > 2**24:
                    return self.f32(r)
            return r
        if op in ('fptosi', 'fptoui'):
            v = self.d(self.val(x['ops'][0], s, x['oty'][0]))
            return self.d2i(v, width(x['ty']))
        if op == 'fpext':
            return self.val(x['ops'][0], s, x['oty'][0])
        if op == 'fptrunc':
            v = self.d(self.val(x['ops'][0], s, x['oty'][0]))
            return self.f32(v) if x['ty'] == 'float' else v
        if op in ('bitcast', 'inttoptr', 'ptrtoint', 'freeze', 'addrspacecast'):
            return self.val(x['ops'][0], s, x['oty'][0])
        if op == 'extractvalue':
            v = self.val(x['ops'][0], s, x['oty'][0])
            for i in x['ix']:
                v = v[i]
            return v
        if op == 'insertvalue':
            v = self.val(x['ops'][0], s, x['oty'][0])
            return self.insert(v, x['ix'], self.val(x['ops'][1], s, x['oty'][1]))
        if op == 'extractelement':
            v = self.val(x['ops'][0], s, x['oty'][0])
            return v[self.val(x['ops'][1], s)]
        if op == 'insertelement':
            v = list(self.val(x['ops'][0], s, x['oty'][0]))
            v[self.val(x['ops'][2], s)] = self.val(x['ops'][1], s, x['oty'][1])
            return tuple(v)
        if op == 'shufflevector':
            a = self.val(x['ops'][0], s, x['oty'][0]) + self.val(x['ops'][1], s, x['oty'][1])
            return tuple(a[i] if i >= 0 else U for i in x['mask'])
        if op == 'fence':
            return None
        if op == 'atomicrmw':
            p = self.val(x['ops'][0], s)
            ty = x['ty']
            old = self.load(p, ty, self.tsize(ty), s)
            v = self.val(x['ops'][1], s, ty)
            o = {0: None, 1: 'add', 2: 'sub', 3: 'and', 5: 'or', 6: 'xor'}.get(x['rmw'], 'x')
            nv = v if o is None else (self.ibin(o, old, v, width(ty), x) if o != 'x' else self.opaque(ty, 'rmw'))
            self.store(p, nv, ty, self.tsize(ty), s)
            return old
        raise Incomplete('instruction %s at %s' % (op, self.loc()))

    def insert(self, v, ix, e):
        l = list(v)
        l[ix[0]] = e if len(ix) == 1 else self.insert(l[ix[0]], ix[1:], e)
        return tuple(l)

    def d(self, v):
        if isinstance(v, (T, tuple)):
            return v
        if v is U:
            self.event('uninit-use', self.cur, 'arithmetic on an uninitialised value')
            return self.opaque('double', 'undef')
        if isinstance(v, IV):
            return tite(v.c, self.d(v.a), self.d(v.b))
        raise Incomplete('not a double: %r at %s' % (v, self.loc()))

    def farith(self, op, a, b):
        if op == 'fadd':
            return add(a, b)
        if op == 'fsub':
            return sub(a, b)
        if op == 'fmul':
            return mul(a, b)
        if op == 'fdiv':
            return div(a, b)
        return fn('fmod', a, b)

    def f32(self, v):
        if v.op == 'f32' or (v.op == 'sym' and SYM[v.id][2]) or v.op == 'sp':
            return v
        if v.op == 'c' and Fr(struct.unpack('f', struct.pack('f', float(v.args[0])))[0]) == v.args[0]:
            return v
        if v.op == 'neg':
            return neg(self.f32(v.args[0]))
        return mk('f32', v)

    def i2d(self, v):
        if isinstance(v, bool):
            return C(int(v))
        if isinstance(v, int):
            return C(v)
        if isinstance(v, B):
            return tite(v, ONE, ZERO)
        if isinstance(v, I):
            if v.op == 'ite':
                return tite(v.args[0], self.i2d(v.args[1]), self.i2d(v.args[2]))
            if v.op == 'b2i':
                return tite(v.args[0], ONE, ZERO)
            if v.op == 'd2i' and False:
                return v.args[0]
            return mk('i2d', v)
        if isinstance(v, IV):
            return tite(v.c, self.i2d(v.a), self.i2d(v.b))
        if v is U:
            return self.d(v)
        raise Incomplete('sitofp of %r' % (v,))

    def d2i(self, v, w):
        if is_c(v):
            f = v.args[0]
            return int(f) if f >= 0 else -int(-f)
        if v.op == 'i2d':
            return v.args[0]
        if v.op == 'ite':
            return vite(v.args[0], self.d2i(v.args[1], w), self.d2i(v.args[2], w))
        return mki('d2i', (v,), -(1 << (w - 1)), (1 << (w - 1)) - 1)

    # ---- calls
    def docall(self, x, s, depth, f):
        callee = x['callee']
        if callee[0] == 'g':
            name = callee[1]
        elif callee[0] == 'l':
            p = s.env[callee[1]]
            a = self.alts(p, s)
            if len(a) != 1 or not a[0][1].obj.startswith('fn:'):
                raise Incomplete('indirect call at %s' % self.loc())
            name = a[0][1].obj[3:]
        else:
            raise Incomplete('call of %s at %s' % (callee, self.loc()))
        r = self.p.raw.get(name)
        if name.startswith('llvm.dbg') or name.startswith('llvm.lifetime') or name in ('llvm.donothing', 'llvm.assume', 'llvm.stackrestore'):
            return s, None, []
        args = []
        for a, bv in zip(x['args'], x['byval']):
            if a[0] == 'x':
                args.append(None)
                continue
            v = self.val(a, s, self.argty(name, len(args), a))
            if bv:
                oid = self.new(s, 'byval', bv, 'stack')
                self.memcpy(s, P(oid, 0), v, bv)
                v = P(oid, 0)
            args.append(v)
        if not isinstance(x['ty'], str) or x['ty'] != 'void':
            self.callty = x['ty']
        else:
            self.callty = 'void'
        loc = self.curloc
        ret = self.call(name, args, s, depth + 1)
        self.curloc = loc
        self.cur = s
        return ret

    def argty(self, name, i, a):
        if a[0] == 'i' and a[1] in (0, 1):
            # i1 constants only matter for intrinsics; ints are fine elsewhere
            return None
        return None

    def extern(self, name, f, args, s):
        ty = self.callty
        dem = f.dem if f else name
        if name.startswith('llvm.'):
            b = name.split('.')
            k = b[1]
            if k in ('memcpy', 'memmove'):
                self.memcpy(s, args[0], args[1], args[2])
                return s, None, []
            if k == 'memset':
                n = args[2]
                d = self.ptr1(args[0], s)
                if not isinstance(n, int):
                    raise Incomplete('memset of symbolic size')
                if n and self.check_access(d, n, s, True, 'write'):
                    o = s.wobj(d.obj)
                    self.clear(o, d.off, n)
                    o.bg.append((d.off, d.off + n, args[1]))
                return s, None, []
            if k in LIBM1:
                return s, f1(k, self.d(args[0])), []
            if k in LIBM2:
                return s, fn(k, self.d(args[0]), self.d(args[1])), []
            if k == 'powi':
                return s, fn('pow', self.d(args[0]), self.i2d(args[1])), []
            if k in ('fma', 'fmuladd'):
                return s, add(mul(self.d(args[0]), self.d(args[1])), self.d(args[2])), []
            if k in ('maxnum', 'minnum', 'maximum', 'minimum'):
                return s, self.fminmax(k[:3], self.d(args[0]), self.d(args[1])), []
            if k == 'copysign':
                a, b_ = self.d(args[0]), self.d(args[1])
                ab = f1('fabs', a)
                return s, tite(c_lt(b_, ZERO), neg(ab), ab), []
            if k == 'is' and b[2] == 'fpclass':
                m = args[1]
                v = self.d(args[0])
                if m == 3:
                    return s, c_nan(v), []
                if m == 0x204:
                    return s, (bor(c_eq(v, PINF), c_eq(v, NINF)) if t_.MODE == 'F' else is_sp(v) and v is not NAN), []
                if m == 504:
                    return s, (bnot(bor(c_nan(v), bor(c_eq(v, PINF), c_eq(v, NINF)))) if t_.MODE == 'F' and not finite_(v) else not is_sp(v)), []
                return s, self.opaque('i1', 'fpclass'), []
            if k == 'eh' and 'typeid' in name:
                p = args[0]
                nm = p.obj[1:] if isinstance(p, P) and p.obj.startswith('@') else '*'
                return s, self.eh(nm), []
            if k in ('trap', 'ubsantrap'):
                self.aborts.append((s.gate, 'trap', self.loc(), s))
                return None, None, []
            if k in ('smax', 'smin', 'umax', 'umin'):
                a, b_ = args
                lt = self.icmp(k[0] + 'lt', a, b_)
                return s, (vite(lt, b_, a) if k[1:] == 'max' else vite(lt, a, b_)), []
            if k == 'abs':
                lt = ilt(args[0], 0)
                return s, vite(lt, self.ibin('sub', 0, args[0], 64, None), args[0]), []
            if name.startswith('llvm.threadlocal.address'):
                return s, args[0], []
            if k == 'expect':
                return s, args[0], []
            if k in ('stacksave',):
                return s, NULL, []
            if k == 'load' and b[2] == 'relative':
                raise Incomplete('relative load')
            if k in ('sadd', 'ssub', 'smul', 'uadd', 'usub', 'umul') and b[2] == 'with':
                r = self.ibin(k[1:], args[0], args[1], 64, None)
                return s, (r, False), []
            raise Incomplete('intrinsic %s at %s' % (name, self.loc()))
        if name.startswith('vp_'):
            return self.intrin(name, args, s)
        if name in LIBM1:
            return s, f1(LIBM1[name], self.d(args[0])), []
        if name in LIBM2:
            return s, fn(LIBM2[name], self.d(args[0]), self.d(args[1])), []
        if name[:-1] in LIBM1 and name[-1] == 'f':
            return s, self.f32(f1(LIBM1[name[:-1]], self.d(args[0]))), []
        if name[:-1] in LIBM2 and name[-1] == 'f':
            return s, self.f32(fn(LIBM2[name[:-1]], self.d(args[0]), self.d(args[1]))), []
        if name == 'fma':
            return s, add(mul(self.d(args[0]), self.d(args[1])), self.d(args[2])), []
        if name in ('fmin', 'fmax'):
            return s, self.fminmax(name[1:], self.d(args[0]), self.d(args[1])), []
        if name == 'cabs':
            a, b_ = self.cargs(args, s)
            return s, fn('hypot', a, b_), []
        if name == 'csqrt':
            return s, csqrt(*self.cargs(args, s)), []
        if name == 'cexp':
            a, b_ = self.cargs(args, s)
            e = fn('exp', a)
            return s, (mul(e, fn('cos', b_)), mul(e, fn('sin', b_))), []
        if name == 'carg':
            a, b_ = self.cargs(args, s)
            return s, mk('atan2', b_, a), []
        if name == 'clog':
            a, b_ = self.cargs(args, s)
            return s, (fn('log', fn('hypot', a, b_)), mk('atan2', b_, a)), []
        if name == '__muldc3':
            return s, cmul(*[self.d(a) for a in args]), []
        if name == '__divdc3':
            return s, cdiv(*[self.d(a) for a in args]), []
        if name in ('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t'):
            n = args[0] if isinstance(args[0], int) else None
            return s, P(self.new(s, 'heap', n, 'heap', self.loc()), 0), []
        if name in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free', '_ZdlPvmSt11align_val_t'):
            for c, q in self.alts(args[0], s):
                if q.obj == 'null' or q.obj not in s.mem:
                    continue
                o = s.wobj(q.obj)
                if o.kind == 'freed':
                    self.event('double-free', s, '')
                if o.kind not in ('heap', 'ext'):
                    self.event('bad-free', s, o.name)
                if len(self.alts(args[0], s)) == 1:
                    o.kind = 'freed'
            return s, None, []
        if name == '__cxa_allocate_exception':
            return s, P(self.new(s, 'exception', None, 'heap'), 0), []
        if name == '__cxa_free_exception':
            return s, None, []
        if name == '__cxa_throw':
            ti = args[1].obj[1:] if isinstance(args[1], P) else '?'
            thr = []
            self.throw(s, Exc('throw', ti, self.loc(), self.stack[-1] if self.stack else None), thr)
            return None, None, thr
        if name == '__cxa_rethrow':
            thr = []
            self.throw(s, Exc('throw', getattr(self, 'lastexc', '?'), self.loc(), None), thr)
            return None, None, thr
        if name == '__cxa_begin_catch':
            if s.exc is not None:
                self.lastexc = s.exc.type
            return s, args[0], []
        if name in ('__cxa_end_catch', '__cxa_atexit'):
            return s, 0, []
        if name == '__cxa_guard_acquire':
            return s, 1, []
        if name in ('__cxa_guard_release', '__cxa_guard_abort'):
            if name == '__cxa_guard_release':
                q = self.ptr1(args[0], s)
                o = s.wobj(q.obj)
                self.clear(o, q.off, 8)
                o.bg.append((q.off + 1, q.off + 8, 0))
                o.cells[q.off] = (1, 1)
            return s, None, []
        if name in ('abort', '_ZSt9terminatev', 'exit', '_exit', '__assert_fail', '_ZSt21__glibcxx_assert_failPKciS0_S0_', '__cxa_pure_virtual'):
            self.aborts.append((s.gate, name, self.loc(), s))
            return None, None, []
        if (f is not None and f.noreturn) or dem.startswith('std::__throw_'):
            thr = []
            self.throw(s, Exc('throw', '_ZTISt' + ('12length_error' if 'length' in name else '12out_of_range' if 'range' in name else '9bad_alloc' if 'alloc' in name else '16invalid_argument' if 'invalid' in name else '11logic_error'), self.loc(), name), thr)
            return None, None, thr
        if name in ('memcpy', 'memmove'):
            self.memcpy(s, args[0], args[1], args[2])
            return s, args[0], []
        if name == 'memset':
            return self.extern('llvm.memset', f, args, s)[0], args[0], []
        if name in ('isnan', '__isnan'):
            return s, toI(c_nan(self.d(args[0]))), []
        # unknown external: result and pointed-to objects become unknown
        self.events.append(('unknown-call', s.gate, dem, self.loc(), self.stack[-1] if self.stack else None))
        for a in args:
            if isinstance(a, P) and a.obj in s.mem and s.mem[a.obj].kind in ('stack', 'heap') and not dem.startswith(('std::invalid_argument', 'std::logic_error', 'std::runtime_error', 'std::__cxx11::basic_string', 'std::ostream')):
                o = s.wobj(a.obj)
                for kk, (sz, v) in list(o.cells.items()):
                    if isinstance(v, T):
                        o.cells[kk] = (sz, self.opaque('double', 'ext:' + name))
                    elif isinstance(v, int):
                        o.cells[kk] = (sz, self.opaque('i%d' % (8 * sz), 'ext:' + name))
        return s, (self.opaque(ty, 'ret:' + name) if ty != 'void' else None), []

    def cargs(self, args, s):
        if len(args) == 2:
            return self.d(args[0]), self.d(args[1])
        a = args[0]
        if isinstance(a, tuple):
            return self.d(a[0]), self.d(a[1])
        raise Incomplete('complex argument')

    def fminmax(self, k, a, b):
        c = c_lt(a, b)
        return tite(c, a, b) if k == 'min' else tite(c, b, a)

    # ---- analysis intrinsics used by the drivers
    def intrin(self, name, a, s):
        if name == 'vp_sym':
            fl = a[3]
            lo, hi = flt(a[1]), flt(a[2])
            return s, sym(self.cstr(s, a[0]), lo, hi, lopen=bool(fl & 1), hopen=bool(fl & 2), nan=bool(fl & 4), f32=bool(fl & 8)), []
        if name == 'vp_symf':
            return s, sym(self.cstr(s, a[0]), -3e38, 3e38, f32=True, nan=False), []
        if name == 'vp_symi':      # indexed symbol
            return s, sym('%s%d' % (self.cstr(s, a[0]), a[1]), flt(a[2]), flt(a[3]), nan=False), []
        if name == 'vp_isym':
            lo, hi = a[1], a[2]
            if lo == hi:
                return s, lo, []
            return s, mki('sym', (self.cstr(s, a[0]),), lo, hi), []
        if name == 'vp_nan':
            return s, NAN, []
        if name in ('vp_out', 'vp_outi', 'vp_outf'):
            self.outs.append((self.cstr(s, a[0]), a[1], s.gate, a[2]))
            return s, None, []
        if name == 'vp_assume':
            c = self.asbool(a[0])
            g = band(s.gate, c)
            if not feasible(g):
                return None, None, []
            s.gate = g
            return s, None, []
        if name == 'vp_snap':
            p = self.ptr1(a[1], s)
            o = s.mem[p.obj]
            n = a[2]
            self.snaps.setdefault(self.cstr(s, a[0]), []).append((s.gate, {k - p.off: v for k, v in o.cells.items() if p.off <= k < p.off + n}, p, dict(s.mem)))
            return s, None, []
        if name == 'vp_abs':
            # replace every double cell by a fresh symbol "tag@off"
            p = self.ptr1(a[1], s)
            n = a[2]
            tag = self.cstr(s, a[0])
            o = s.wobj(p.obj)
            self.materialise(o)
            for k in sorted(o.cells):
                sz, v = o.cells[k]
                if p.off <= k < p.off + n and isinstance(v, T) and sz == 8:
                    nm = '%s@%d' % (tag, k - p.off)
                    self.absmap.setdefault(nm, []).append((s.gate, v))
                    o.cells[k] = (sz, sym(nm, nan=False))
            return s, None, []
        if name == 'vp_mark':
            return s, None, []
        raise Incomplete('intrinsic ' + name)

    def materialise(self, o):
        pass

    # ---- entry
    def entry(self, name):
        self.curloc = '?'
        st = State(True, {})
        self.callty = 'void'
        for g in ('llvm.global_ctors',):
            gg = self.p.globals.get(g)
            for e in (gg or {}).get('init', []):
                if e[1] == 'val' and e[4][0] == 'g' and e[4][1] in self.p.raw:
                    r, _, _ = self.call(e[4][1], [], st, 0)
                    if r is not None:
                        st = r
        self.outs, self.events = [], []
        self.state, self.ret, self.throws = self.call(name, [], st, 0)
        self.aborts = [a for a in self.aborts if feasible(a[0])]
        self.throws = [t for t in self.throws if feasible(t.gate)]
        self.events = [e for e in self.events if feasible(e[1])]
        return self
