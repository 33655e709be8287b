"""Value domain of the analysis: hash-consed real-valued terms, interval ranges,
symbolic integers, reduced ordered BDDs over comparison atoms (path gates)."""
import math, struct
from fractions import Fraction as Fr
import mpmath
mp = mpmath.mp
mp.dps = 60
INF = float('inf')


class Incomplete(Exception):
    """The analysis met a construct it cannot follow; carries a location."""


class T:
    __slots__ = ('op', 'args', 'id', 'rg', 'size', 'cl')
    _tab = {}
    _n = 0

    def __repr__(self):
        return show(self)


def mk(op, *args):
    key = (op,) + tuple(a.id if isinstance(a, T) else ('#', a) for a in args)
    t = T._tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        T._n += 1
        t.id = T._n
        t.rg = None
        t.cl = op in ('c', 'k', 'sp') or (op != 'sym' and len(args) > 0 and all(isinstance(a, T) and a.cl for a in args))
        t.size = 1 + sum(a.size for a in args if isinstance(a, T))
        T._tab[key] = t
    return t


def show(t, d=6):
    if not isinstance(t, T):
        return str(t)
    o = t.op
    if o == 'c':
        f = t.args[0]
        return str(f) if f.denominator < 10**6 else repr(float(f))
    if o in ('k', 'sp', 'sym'):
        return str(t.args[0])
    if d == 0:
        return '..'
    if o in ('+', '-', '*', '/'):
        return '(' + show(t.args[0], d-1) + o + show(t.args[1], d-1) + ')'
    return o + '(' + ','.join(show(a, d-1) for a in t.args) + ')'


def C(x):
    return mk('c', Fr(x))


PI = mk('k', 'pi')
LN2 = mk('k', 'ln2')
LN10 = mk('k', 'ln10')
SQ2 = mk('k', 'sqrt2')
PINF = mk('sp', 'inf')
NINF = mk('sp', '-inf')
NAN = mk('sp', 'nan')
ZERO = C(0)
ONE = C(1)
KVAL = {'pi': lambda: mp.pi, 'ln2': lambda: mp.ln(2), 'ln10': lambda: mp.ln(10), 'sqrt2': lambda: mp.sqrt(2)}
KFLT = {'pi': math.pi, 'ln2': math.log(2), 'ln10': math.log(10), 'sqrt2': math.sqrt(2)}
KTERM = {'pi': PI, 'ln2': LN2, 'ln10': LN10, 'sqrt2': SQ2}

MODE = 'R'      # 'R': real algebra;  'F': Herbrand floating-point terms


def set_mode(m):
    global MODE
    MODE = m


_lit = {}


def literal(f):
    """Double literal -> term.  In R mode a literal stands for the real number it
    abbreviates: shortest decimal, or a rational multiple of pi, ln2, ln10, sqrt2."""
    if f != f:
        return NAN
    if f == INF:
        return PINF
    if f == -INF:
        return NINF
    if f == 0:
        return ZERO
    if f in _lit:
        return _lit[f]
    r = None
    if f == int(f) and abs(f) < 2**53:
        r = C(int(f))
    else:
        s = repr(f)
        digits = len(s.replace('-', '').replace('.', '').split('e')[0].strip('0'))
        if digits > 12:
            for k, kv in KFLT.items():
                for q in (1, 2, 3, 4, 5, 6, 8, 10, 12, 16, 20, 40, 180, 360):
                    for p in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 20):
                        if abs(abs(f) - p * kv / q) <= 2.3e-16 * abs(f):
                            r = mul(C(Fr(p, q) * (1 if f > 0 else -1)), KTERM[k])
                            break
                    if r:
                        break
                if r:
                    break
            if r is None:                       # small rationals such as 1/3
                fr = Fr(f).limit_denominator(1000)
                if abs(float(fr) - f) <= 2.3e-16 * abs(f):
                    r = C(fr)
        if r is None:
            r = C(Fr(s))
    _lit[f] = r
    return r


def is_c(t):
    return t.op == 'c'


def is_sp(t):
    return t.op == 'sp'


def flt(t):
    """float value of a constant/special term, else None"""
    if t.op == 'c':
        return float(t.args[0])
    if t.op == 'sp':
        return float(t.args[0])
    return None


def _special(op, a, b):
    """IEEE folding when one operand is inf/nan; other operand must have known sign/finite"""
    x = flt(a)
    y = flt(b)
    if (x is not None and x != x) or (y is not None and y != y):
        return NAN
    if x is None or y is None:
        # finite symbolic operand
        if op in '+-':
            if x is not None:
                return a
            return b if op == '+' else (NINF if y > 0 else PINF)
        if op == '/':
            if y is not None:
                return ZERO
        s = b if x is not None else a
        w = x if x is not None else y
        g = _sign(s)
        if g == 0:
            return NAN if op == '*' else PINF if w > 0 else NINF
        if g is not None:
            return PINF if g * w > 0 else NINF
        return mk(op, a, b)
    try:
        r = {'+': lambda: x+y, '-': lambda: x-y, '*': lambda: x*y, '/': lambda: x/y}[op]()
    except ZeroDivisionError:
        r = x
    return literal(r)


def add(a, b):
    if is_sp(a) or is_sp(b):
        return _special('+', a, b)
    if is_c(a) and is_c(b):
        return C(a.args[0] + b.args[0])
    if MODE == 'R':
        if a is ZERO:
            return b
        if b is ZERO:
            return a
        if b.op == 'neg':
            return sub(a, b.args[0])
        if a.op == 'neg':
            return sub(b, a.args[0])
    if a.id > b.id:
        a, b = b, a
    return mk('+', a, b)


def sub(a, b):
    if is_sp(a) or is_sp(b):
        return _special('-', a, b)
    if is_c(a) and is_c(b):
        return C(a.args[0] - b.args[0])
    if MODE == 'R':
        if b is ZERO:
            return a
        if a is ZERO:
            return neg(b)
        if a is b:
            return ZERO
        if b.op == 'neg':
            return add(a, b.args[0])
    return mk('-', a, b)


def neg(a):
    if is_sp(a):
        return {'inf': NINF, '-inf': PINF, 'nan': NAN}[a.args[0]]
    if is_c(a):
        return C(-a.args[0])
    if a.op == 'neg':
        return a.args[0]
    if MODE == 'R' and a.op == '-':
        return mk('-', a.args[1], a.args[0])
    return mk('neg', a)


def mul(a, b):
    if is_sp(a) or is_sp(b):
        return _special('*', a, b)
    if is_c(a) and is_c(b):
        return C(a.args[0] * b.args[0])
    if MODE == 'R':
        for x, y in ((a, b), (b, a)):
            if x is ZERO:
                return ZERO
            if x is ONE:
                return y
            if is_c(x) and x.args[0] < 0:
                return neg(mul(C(-x.args[0]), y))
            if is_c(x) and y.op == '*' and is_c(y.args[0]):
                return mul(C(x.args[0] * y.args[0].args[0]), y.args[1])
            if is_c(x) and y.op == '*' and is_c(y.args[1]):
                return mul(C(x.args[0] * y.args[1].args[0]), y.args[0])
            if is_c(x) and y.op == '/' and is_c(y.args[1]):
                return mul(C(x.args[0] / y.args[1].args[0]), y.args[0])
            if x.op == 'neg':
                return neg(mul(x.args[0], y))
    if a.id > b.id:
        a, b = b, a
    return mk('*', a, b)


_cv = {}


def closed_val(t):
    """value of a term without inputs (None if undefined)"""
    if t.id not in _cv:
        try:
            v = MpEval({}).ev(t)
            if isinstance(v, mp.mpc):
                v = None
            elif abs(v) < mp.mpf(10)**-42:
                v = mp.mpf(0)
        except Undefined:
            v = None
        _cv[t.id] = v
    return _cv[t.id]


def div(a, b):
    if is_sp(a) or is_sp(b):
        return _special('/', a, b)
    if MODE == 'R' and b.cl and not is_c(b) and closed_val(b) == 0:
        b = ZERO
    if MODE == 'R' and b is ZERO and a.cl and not is_c(a):
        v = closed_val(a)
        if v is not None:
            return NAN if v == 0 else PINF if v > 0 else NINF
    if is_c(b) and b.args[0] == 0:
        if is_c(a):
            return NAN if a.args[0] == 0 else (PINF if a.args[0] > 0 else NINF)
        return mk('/', a, b)
    if is_c(a) and is_c(b):
        return C(a.args[0] / b.args[0])
    if MODE == 'R':
        if is_c(b):
            return mul(C(1 / b.args[0]), a)
        if a is ZERO:
            return ZERO
        if a is b:
            return ONE
        if b.op == 'neg':
            return neg(div(a, b.args[0]))
        if a.op == 'neg':
            return neg(div(a.args[0], b))
    return mk('/', a, b)


def _sign(t):
    """sign of a term if known (None otherwise)"""
    if t.op == 'sp':
        f = float(t.args[0])
        return None if f != f else 1 if f > 0 else -1
    if t.cl:
        v = closed_val(t)
        if v is not None:
            return 0 if v == 0 else 1 if v > 0 else -1
        return None
    lo, hi = rng(t)
    return 1 if lo > 0 else -1 if hi < 0 else None


def _fnspecial(name, a):
    """library functions of infinite or NaN arguments"""
    x = a[0]
    if name == 'pow':
        y = a[1]
        if y is ZERO or x is ONE:
            return ONE
        if x is NAN or y is NAN:
            return NAN
        if is_sp(x):
            s = _sign(y)
            if s is None:
                return None
            if x is PINF:
                return PINF if s > 0 else ZERO
            if s < 0:
                return ZERO
            odd = is_c(y) and y.args[0].denominator == 1 and y.args[0].numerator % 2
            return NINF if odd else PINF
        lo, hi = rng(x)
        if x.cl and closed_val(x) is not None:
            lo = hi = float(closed_val(x))
        lo, hi = (0, max(abs(lo), abs(hi))) if lo < 0 < hi else (min(abs(lo), abs(hi)), max(abs(lo), abs(hi)))
        if lo > 1:
            return PINF if y is PINF else ZERO
        if hi < 1:
            return ZERO if y is PINF else PINF
        return None
    if name == 'hypot' and (a[0] in (PINF, NINF) or a[1] in (PINF, NINF)):
        return PINF
    if any(y is NAN for y in a) and name not in ('fmin', 'fmax'):
        return NAN
    if len(a) > 1:
        return None
    if name in ('fabs', 'cosh'):
        return PINF
    if name in ('sqrt', 'log', 'log2', 'log10', 'acosh', 'log1p', 'tgamma'):
        return PINF if x is PINF else NAN
    if name in ('exp', 'exp2'):
        return PINF if x is PINF else ZERO
    if name in ('sinh', 'asinh', 'cbrt', 'floor', 'ceil', 'round', 'trunc'):
        return x
    if name == 'expm1':
        return x if x is PINF else C(-1)
    if name == 'tanh':
        return ONE if x is PINF else C(-1)
    if name == 'atan':
        return mul(C(Fr(1, 2) if x is PINF else Fr(-1, 2)), PI)
    if name in ('sin', 'cos', 'tan', 'asin', 'acos', 'atanh'):
        return NAN
    return None


def fn(name, *a):
    if any(is_sp(x) for x in a):
        r = _fnspecial(name, a)
        if r is not None:
            return r
    if MODE == 'R':
        x = a[0]
        if name == 'pow':
            y = a[1]
            if is_c(y) and y.args[0].denominator == 1 and 0 <= y.args[0] <= 4:
                r = ONE
                for _ in range(int(y.args[0])):
                    r = mul(r, x)
                return r
            if y is C(Fr(1, 2)):
                return fn('sqrt', x)
            if x is ONE:
                return ONE
        if name in ('sqrt', 'log') and x.op != 'ite':
            # outside the domain of the real function: NaN
            if x.cl:
                v = closed_val(x)
                if v is not None and v < 0:
                    return NAN
                if v is not None and v == 0:
                    return ZERO if name == 'sqrt' else NINF
            elif rng(x)[1] < 0:
                return NAN
        if name == 'sqrt' and is_c(x) and x.args[0] >= 0:
            n = math.isqrt(x.args[0].numerator)
            d = math.isqrt(x.args[0].denominator)
            if Fr(n, d)**2 == x.args[0]:
                return C(Fr(n, d))
        if x is ZERO:
            if name in ('sin', 'tan', 'sinh', 'tanh', 'asinh', 'atan', 'sqrt', 'fabs', 'asin', 'atanh', 'expm1', 'log1p'):
                return ZERO
            if name in ('cos', 'cosh', 'exp'):
                return ONE
        if x is ONE and name == 'log':
            return ZERO
        if name in ('fabs',):
            if is_c(x):
                return C(abs(x.args[0]))
            lo, hi = rng(x)
            if lo >= 0:
                return x
            if hi <= 0:
                return neg(x)
        if name == 'hypot':
            return fn('sqrt', add(mul(a[0], a[0]), mul(a[1], a[1])))
        if name == 'cos' and x.op == 'neg':
            return fn('cos', x.args[0])
        if name in ('sin', 'tan', 'sinh', 'asinh', 'atan', 'tanh') and x.op == 'neg':
            return neg(fn(name, x.args[0]))
        if name == 'cosh' and x.op == 'neg':
            return fn('cosh', x.args[0])
    return mk(name, *a)


def sym(name, lo=-INF, hi=INF, f32=False, lopen=False, hopen=False, nan=True):
    t = mk('sym', name)
    SYM[t.id] = (lo, hi, f32, lopen, hopen, nan)
    t.rg = None
    return t


SYM = {}

# ---------------------------------------------------------------- ranges (R mode)


def _m(x, y):
    if x == 0 or y == 0:
        return 0.0
    return x * y


def _wide(lo, hi):
    return (math.nextafter(lo, -INF) if lo not in (0.0,) and abs(lo) != INF else lo,
            math.nextafter(hi, INF) if hi not in (0.0,) and abs(hi) != INF else hi)


def rng(t):
    """closed float hull of the real values of t (ignores NaN)"""
    if t.rg is not None:
        return t.rg
    r = _rng(t)
    t.rg = r
    return r


def _rng(t):
    o = t.op
    a = t.args
    if o == 'c':
        f = float(a[0])
        return (f, f) if Fr(f) == a[0] else (math.nextafter(f, -INF), math.nextafter(f, INF))
    if o == 'k':
        f = KFLT[a[0]]
        return (math.nextafter(f, -INF), math.nextafter(f, INF))
    if o == 'sp':
        f = float(a[0])
        return (f, f) if f == f else (-INF, INF)
    if o == 'sym':
        s = SYM[t.id]
        return (s[0], s[1])
    if t.size > 400:
        return (-INF, INF)
    if o == 'ite':
        x, y = rng(a[1]), rng(a[2])
        return (min(x[0], y[0]), max(x[1], y[1]))
    R = [rng(x) for x in a if isinstance(x, T)]
    if o == '+':
        return _wide(R[0][0]+R[1][0], R[0][1]+R[1][1])
    if o == '-':
        return _wide(R[0][0]-R[1][1], R[0][1]-R[1][0])
    if o == 'neg':
        return (-R[0][1], -R[0][0])
    if o == '*':
        if a[0] is a[1]:
            lo, hi = R[0]
            v = [lo*lo if abs(lo) != INF else INF, hi*hi if abs(hi) != INF else INF]
            return _wide(0.0 if lo <= 0 <= hi else min(v), max(v))
        v = [_m(x, y) for x in R[0] for y in R[1]]
        return _wide(min(v), max(v))
    if o == '/':
        lo, hi = R[1]
        if lo > 0 or hi < 0:
            inv = (0.0 if abs(hi) == INF else 1/hi, 0.0 if abs(lo) == INF else 1/lo)
            v = [_m(x, y) for x in R[0] for y in inv]
            return _wide(min(v), max(v))
        return (-INF, INF)
    if o in ('sin', 'cos'):
        return (-1.0, 1.0)
    if o in ('sqrt', 'fabs', 'hypot'):
        if o == 'sqrt':
            lo, hi = R[0]
            return _wide(math.sqrt(max(lo, 0)), math.sqrt(max(hi, 0)) if hi != INF else INF)
        return (0.0, INF)
    if o == 'exp':
        lo, hi = R[0]
        try:
            return _wide(math.exp(lo), math.exp(hi))
        except OverflowError:
            return (0.0, INF)
    if o == 'cosh':
        return (1.0, INF)
    if o == 'pow' and R[0][0] > 0:
        return (0.0, INF)
    if o == 'f32':
        return (R[0][0]*(1+1e-6) if R[0][0] < 0 else R[0][0]*(1-1e-6), R[0][1]*(1+1e-6) if R[0][1] > 0 else R[0][1]*(1-1e-6))
    if o == 'i2d':
        i = a[0]
        return (float(i.lo), float(i.hi))
    return (-INF, INF)


# ---------------------------------------------------------------- integers
class I:
    """symbolic integer: opaque expression with an interval"""
    __slots__ = ('op', 'args', 'lo', 'hi', 'key')
    _tab = {}

    def __repr__(self):
        return 'I:%s%s[%s,%s]' % (self.op, self.args if self.op == 'sym' else '', self.lo, self.hi)

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return self is o


def mki(op, args, lo, hi):
    key = (op,) + tuple((a.id if isinstance(a, T) else (id(a) if isinstance(a, I) else ('#', a))) for a in args)
    i = I._tab.get(key)
    if i is None:
        i = I()
        i.op, i.args, i.lo, i.hi, i.key = op, args, lo, hi, key
        I._tab[key] = i
    assert op != 'sym' or (i.lo, i.hi) == (lo, hi), args
    return i


def irange(v):
    if isinstance(v, I):
        return v.lo, v.hi
    if isinstance(v, B):
        return 0, 1
    return v, v


# ---------------------------------------------------------------- BDD
class B:
    __slots__ = ('var', 'hi', 'lo', 'id')
    _tab = {}
    _n = 0

    def __repr__(self):
        return 'B%d' % self.id


def bmk(var, hi, lo):
    if hi is lo:
        return hi
    k = (var, bid(hi), bid(lo))
    b = B._tab.get(k)
    if b is None:
        b = B()
        b.var, b.hi, b.lo = var, hi, lo
        B._n += 1
        b.id = B._n + 1
        B._tab[k] = b
    return b


def bid(b):
    return int(b) if isinstance(b, bool) else b.id


_bc = {}


def bite(f, g, h):
    if f is True:
        return g
    if f is False:
        return h
    if g is h:
        return g
    if g is True and h is False:
        return f
    k = (f.id, bid(g), bid(h))
    r = _bc.get(k)
    if r is not None:
        return r
    v = min(x.var for x in (f, g, h) if isinstance(x, B))

    def co(x, s):
        if isinstance(x, B) and x.var == v:
            return x.hi if s else x.lo
        return x
    r = bmk(v, bite(co(f, 1), co(g, 1), co(h, 1)), bite(co(f, 0), co(g, 0), co(h, 0)))
    _bc[k] = r
    return r


def band(a, b):
    return bite(a, b, False)


def bor(a, b):
    return bite(a, True, b)


def bnot(a):
    return bite(a, False, True)


def bxor(a, b):
    return bite(a, bnot(b), b)


_rc = {}


def brestrict(f, care):
    """simplify f under care-set (Coudert-Madre restrict)"""
    if isinstance(f, bool) or care is True:
        return f
    if care is False:
        return f
    k = (f.id, care.id)
    r = _rc.get(k)
    if r is not None:
        return r
    if care.var < f.var:
        r = brestrict(f, bor(care.hi, care.lo))
    elif f.var < care.var:
        r = bmk(f.var, brestrict(f.hi, care), brestrict(f.lo, care))
    else:
        if care.hi is False:
            r = brestrict(f.lo, care.lo)
        elif care.lo is False:
            r = brestrict(f.hi, care.hi)
        else:
            r = bmk(f.var, brestrict(f.hi, care.hi), brestrict(f.lo, care.lo))
    _rc[k] = r
    return r


def bsupport(f, s=None, seen=None):
    if s is None:
        s, seen = set(), set()
    if isinstance(f, bool) or f.id in seen:
        return s
    seen.add(f.id)
    s.add(f.var)
    bsupport(f.hi, s, seen)
    bsupport(f.lo, s, seen)
    return s


def cubes(f, cur=None):
    """all paths to True as dict var->bool"""
    if cur is None:
        cur = {}
    if f is False:
        return
    if f is True:
        yield dict(cur)
        return
    cur[f.var] = True
    yield from cubes(f.hi, cur)
    cur[f.var] = False
    yield from cubes(f.lo, cur)
    del cur[f.var]


ATOMS = []          # var -> descriptor
_akey = {}
AXIOMS = [True]
_same = {}          # term id -> list of (kind, const, var)


def atom(key, desc):
    v = _akey.get(key)
    if v is None:
        v = len(ATOMS)
        ATOMS.append(desc)
        _akey[key] = v
        _axioms(v, desc)
    return bmk(v, True, False)


def _axioms(v, d):
    """order axioms between atoms comparing one term with constants"""
    def norm(d):
        if d[0] in ('lt', 'eq'):
            a, b = d[1], d[2]
            if b.op == 'c':
                return a.id, (d[0], b.args[0], True)       # a<c / a==c
            if a.op == 'c':
                return b.id, (d[0], a.args[0], False)      # c<b
        return None, None
    tid, e = norm(d)
    if tid is None:
        return
    me = bmk(v, True, False)
    for (k2, c2, left2, v2) in _same.setdefault(tid, []):
        k1, c1, left1 = e
        o = bmk(v2, True, False)
        ax = True
        if k1 == 'lt' and k2 == 'lt':
            if left1 and left2:      # t<c1, t<c2
                ax = bor(bnot(me), o) if c1 <= c2 else bor(bnot(o), me)
            elif not left1 and not left2:   # c1<t, c2<t
                ax = bor(bnot(me), o) if c1 >= c2 else bor(bnot(o), me)
            else:
                up, lo = (c1, c2) if left1 else (c2, c1)   # t<up ; lo<t
                if up <= lo:
                    ax = bnot(band(me, o))
                if lo < up:
                    ax = band(ax, bor(me, o))   # no NaN in R mode: t>=up implies t>lo
                    if MODE == 'F':
                        ax = True
        elif k1 == 'eq' and k2 == 'eq':
            if c1 != c2:
                ax = bnot(band(me, o))
        else:
            (ceq, beq), (clt, blt, left) = ((c1, me), (c2, o, left2)) if k1 == 'eq' else ((c2, o), (c1, me, left1))
            truth = (ceq < clt) if left else (clt < ceq)
            ax = bor(bnot(beq), blt if truth else bnot(blt))
        AXIOMS[0] = band(AXIOMS[0], ax)
    _same[tid].append(e + (v,))


def feasible(g):
    if g is False:
        return False
    return band(g, AXIOMS[0]) is not False


def tite(c, a, b):
    """conditional value for double terms"""
    if c is True or a is b:
        return a
    if c is False:
        return b
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk('ite', c, a, b)


# mk() uses '#'-keys for non-T args: BDD nodes are hashable by identity (hash-consed)

# ---------------------------------------------------------------- numeric evaluation
class Undefined(Exception):
    pass


class MpEval:
    """evaluate terms at a point (dict sym-name -> mpf); analytic continuation allowed"""

    def __init__(self, point, strict=False, default=None):
        self.pt = point
        self.m = {}
        self.bm = {}
        self.strict = strict
        self.default = default

    def ev(self, t):
        r = self.m.get(t.id)
        if r is not None:
            return r
        # iterative post-order to avoid recursion limits
        st = [t]
        while st:
            x = st[-1]
            if x.id in self.m:
                st.pop()
                continue
            if x.op == 'ite':
                c = self.cond(x.args[0])
                y = x.args[1] if c else x.args[2]
                if y.id in self.m:
                    self.m[x.id] = self.m[y.id]
                    st.pop()
                else:
                    st.append(y)
                continue
            need = [a for a in x.args if isinstance(a, T) and a.id not in self.m]
            if need:
                st.extend(need)
                continue
            self.m[x.id] = self.app(x)
            st.pop()
        return self.m[t.id]

    def sample_sym(self, t):
        n = t.args[0]
        if n in self.pt:
            return self.pt[n]
        if self.default:
            v = self.default(t)
            self.pt[n] = v
            return v
        raise Undefined(n)

    def app(self, x):
        o = x.op
        a = [self.m[y.id] for y in x.args if isinstance(y, T)]
        try:
            if o == 'c':
                f = x.args[0]
                return mp.mpf(f.numerator) / f.denominator
            if o == 'k':
                return KVAL[x.args[0]]() + 0
            if o == 'sp':
                return mp.mpf(x.args[0])
            if o == 'sym':
                return mp.mpmathify(self.sample_sym(x))
            if o == '+':
                return a[0] + a[1]
            if o == '-':
                return a[0] - a[1]
            if o == '*':
                return a[0] * a[1]
            if o == '/':
                if a[1] == 0:
                    if a[0] == 0:
                        return mp.nan
                    return mp.inf if a[0] > 0 else -mp.inf
                return a[0] / a[1]
            if o == 'neg':
                return -a[0]
            if o == 'fabs':
                if isinstance(a[0], mp.mpc):
                    return a[0] if a[0].real >= 0 else -a[0]
                return abs(a[0])
            if o == 'pow':
                return mp.power(a[0], a[1])
            if o == 'hypot':
                return mp.sqrt(a[0]*a[0] + a[1]*a[1])
            if o == 'csqrt_re':
                s = mp.sqrt(mp.mpc(a[0], a[1]))
                return s.real
            if o == 'csqrt_im':
                s = mp.sqrt(mp.mpc(a[0], a[1]))
                return s.imag
            if o == 'atan2':
                return mp.atan2(a[0], a[1])
            if o in ('f32', 'i2d', 'opq', 'bits'):
                if o == 'f32':
                    v = a[0]
                    if mp.isnan(v) or mp.isinf(v):
                        return v
                    return mp.mpf(struct.unpack('f', struct.pack('f', float(v)))[0]) if abs(v) < 3e38 else v
                if o == 'i2d':
                    return mp.mpf(self.iev(x.args[0]))
                return self.opq(x, a)
            if o == 'floor':
                return mp.floor(a[0])
            if o == 'ceil':
                return mp.ceil(a[0])
            if o == 'trunc':
                return mp.floor(a[0]) if a[0] >= 0 else mp.ceil(a[0])
            if o == 'round':
                return mp.floor(a[0] + mp.mpf(1)/2) if a[0] >= 0 else -mp.floor(-a[0] + mp.mpf(1)/2)
            if o == 'fmod':
                return mp.fmod(a[0], a[1])
            f = getattr(mp, {'log': 'ln'}.get(o, o), None)
            if f is not None:
                return f(*a)
        except (ZeroDivisionError, ValueError, OverflowError, TypeError) as e:
            raise Undefined(o) from e
        return self.opq(x, a)

    def opq(self, x, a):
        import hashlib
        h = hashlib.sha256(repr((x.op, [str(y) for y in x.args if not isinstance(y, T)], [mp.nstr(v, 25) for v in a])).encode()).digest()
        return mp.mpf(int.from_bytes(h[:12], 'big')) / mp.mpf(2)**96

    def iev(self, i):
        if not isinstance(i, I):
            if isinstance(i, B):
                return int(self.cond(i))
            if isinstance(i, bool):
                return int(i)
            return i
        o, a = i.op, i.args
        if o == 'sym':
            if a[0] in self.pt:
                return int(self.pt[a[0]])
            lo = max(i.lo, -1000)
            hi = min(i.hi, max(1000, lo + 10))
            import random
            k = self.pt.get('__seed', 0)
            if k % 4 == 3:
                lo, hi = i.lo, i.hi
            v = random.Random(str(a[0]) + str(k)).randint(lo, hi)
            self.pt[a[0]] = v
            return v
        if o == 'ite':
            return self.iev(a[1]) if self.cond(a[0]) else self.iev(a[2])
        if o == 'b2i':
            return int(self.cond(a[0]))
        if o == 'd2i':
            v = self.ev(a[0])
            return int(v)
        v = [self.iev(x) for x in a]
        if o == 'add':
            return v[0]+v[1]
        if o == 'sub':
            return v[0]-v[1]
        if o == 'mul':
            return v[0]*v[1]
        if o == 'sdiv':
            q = abs(v[0])//abs(v[1])
            return q if (v[0] >= 0) == (v[1] >= 0) else -q
        if o == 'srem':
            q = abs(v[0]) % abs(v[1])
            return q if v[0] >= 0 else -q
        if o == 'udiv':
            return v[0] // v[1]
        if o == 'urem':
            return v[0] % v[1]
        if o == 'and':
            return v[0] & v[1]
        if o == 'or':
            return v[0] | v[1]
        if o == 'xor':
            return v[0] ^ v[1]
        if o == 'shl':
            return v[0] << v[1]
        raise Undefined('int ' + o)

    def atomval(self, d):
        k = d[0]
        if k in ('lt', 'eq'):
            x, y = self.ev(d[1]), self.ev(d[2])
            if isinstance(x, mp.mpc) or isinstance(y, mp.mpc):
                df = x - y
                if k == 'eq':
                    return abs(df) <= mp.mpf(10)**-(mp.dps*3//4) * (abs(x) + abs(y))
                if abs(mp.im(df)) > mp.mpf(10)**-(mp.dps*2//3) * abs(df):
                    raise Undefined('complex order')
                x, y = mp.re(x), mp.re(y)
            if mp.isnan(x) or mp.isnan(y):
                return False
            if k == 'lt':
                return bool(x < y)
            if mp.isinf(x) or mp.isinf(y):
                return bool(x == y)
            return abs(x - y) <= mp.mpf(10)**-(mp.dps*3//4) * (abs(x) + abs(y))
        if k == 'nan':
            return bool(mp.isnan(self.ev(d[1])))
        if k == 'icmp':
            x, y = self.iev(d[2]), self.iev(d[3])
            return {'slt': x < y, 'eq': x == y, 'ult': (x & (2**64-1)) < (y & (2**64-1))}[d[1]]
        raise Undefined('atom')

    def cond(self, b):
        while not isinstance(b, bool):
            v = self.bm.get(b.var)
            if v is None:
                v = self.atomval(ATOMS[b.var])
                self.bm[b.var] = v
            b = b.hi if v else b.lo
        return b


def substitute(t, mp_, memo=None):
    """replace syms (dict id->T), rebuilding through the smart constructors"""
    if memo is None:
        memo = {}
    st = [t]
    while st:
        x = st[-1]
        if x.id in memo:
            st.pop()
            continue
        if x.id in mp_:
            memo[x.id] = mp_[x.id]
            st.pop()
            continue
        need = [a for a in x.args if isinstance(a, T) and a.id not in memo]
        if need:
            st.extend(need)
            continue
        memo[x.id] = rebuild(x, [memo[a.id] if isinstance(a, T) else a for a in x.args])
        st.pop()
    return memo[t.id]


def rebuild(x, a):
    o = x.op
    if o in ('c', 'k', 'sp', 'sym'):
        return x
    if o == '+':
        return add(*a)
    if o == '-':
        return sub(*a)
    if o == '*':
        return mul(*a)
    if o == '/':
        return div(*a)
    if o == 'neg':
        return neg(*a)
    if o == 'ite':
        return tite(*a)
    if o in ('opq', 'i2d', 'bits', 'f32'):
        return mk(o, *a)
    return fn(o, *a)


def syms_of(t, acc=None, seen=None):
    if acc is None:
        acc, seen = set(), set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'sym':
            acc.add(x)
        for a in x.args:
            if isinstance(a, T):
                st.append(a)
            elif isinstance(a, B):
                for v in bsupport(a):
                    for y in ATOMS[v][1:]:
                        if isinstance(y, T):
                            st.append(y)
            elif isinstance(a, I):
                ist = [a]
                while ist:
                    i = ist.pop()
                    for y in i.args:
                        if isinstance(y, T):
                            st.append(y)
                        elif isinstance(y, I):
                            ist.append(y)
    return acc


def ites_of(t, acc=None, seen=None):
    """BDD conditions of all conditional nodes below t"""
    if acc is None:
        acc, seen = {}, set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'ite':
            acc[x.args[0].id] = x.args[0]
        for a in x.args:
            if isinstance(a, T):
                st.append(a)
    return acc


def resolve(t, assign, memo):
    """pick ite branches under a complete assignment var->bool of the atoms involved"""
    st = [t]
    while st:
        x = st[-1]
        if x.id in memo:
            st.pop()
            continue
        if x.op == 'ite':
            b = x.args[0]
            while not isinstance(b, bool):
                b = b.hi if assign[b.var] else b.lo
            y = x.args[1] if b else x.args[2]
            if y.id in memo:
                memo[x.id] = memo[y.id]
                st.pop()
            else:
                st.append(y)
            continue
        need = [a for a in x.args if isinstance(a, T) and a.id not in memo]
        if need:
            st.extend(need)
            continue
        if all(not isinstance(a, T) or memo[a.id] is a for a in x.args):
            memo[x.id] = x
        else:
            memo[x.id] = rebuild(x, [memo[a.id] if isinstance(a, T) else a for a in x.args])
        st.pop()
    return memo[t.id]


_cof = {}


def bcof(f, v, val):
    """cofactor of a condition"""
    if isinstance(f, bool) or f.var > v:
        return f
    if f.var == v:
        return f.hi if val else f.lo
    k = (f.id, v, val)
    r = _cof.get(k)
    if r is None:
        r = bmk(f.var, bcof(f.hi, v, val), bcof(f.lo, v, val))
        _cof[k] = r
    return r


def cofactor(t, v, val, memo=None):
    """the term with condition atom v fixed"""
    memo = {} if memo is None else memo
    st = [t]
    while st:
        x = st[-1]
        if x.id in memo:
            st.pop()
            continue
        b = None
        if x.op == 'ite':
            b = bcof(x.args[0], v, val)
            if isinstance(b, bool):
                y = x.args[1] if b else x.args[2]
                if y.id in memo:
                    memo[x.id] = memo[y.id]
                    st.pop()
                else:
                    st.append(y)
                continue
        need = [a for a in x.args if isinstance(a, T) and a.id not in memo]
        if need:
            st.extend(need)
            continue
        if x.op == 'ite':
            memo[x.id] = tite(b, memo[x.args[1].id], memo[x.args[2].id])
        elif all(not isinstance(a, T) or memo[a.id] is a for a in x.args):
            memo[x.id] = x
        else:
            memo[x.id] = rebuild(x, [memo[a.id] if isinstance(a, T) else a for a in x.args])
        st.pop()
    return memo[t.id]


PI_LO = Fr(314159265358979323846264338327950288, 10**35)
PI_HI = PI_LO + Fr(1, 10**35)
_lin = {}


def linear(t):
    """linear form {(symbol id or None, power of pi): coefficient} of t, or None"""
    if t.id in _lin:
        return _lin[t.id]
    o, a = t.op, t.args
    r = None
    if o == 'c':
        r = {(None, 0): a[0]} if a[0] else {}
    elif o == 'k' and a[0] == 'pi':
        r = {(None, 1): Fr(1)}
    elif o == 'sym':
        r = {(t.id, 0): Fr(1)}
    elif o == 'neg':
        x = linear(a[0])
        r = None if x is None else {k: -c for k, c in x.items()}
    elif o in '+-' and t.size < 4000:
        x, y = linear(a[0]), linear(a[1])
        if x is not None and y is not None:
            r = dict(x)
            for k, c in y.items():
                c = r.get(k, 0) + (c if o == '+' else -c)
                if c:
                    r[k] = c
                else:
                    r.pop(k, None)
    elif o == '*':
        x, y = linear(a[0]), linear(a[1])
        if x is not None and y is not None:
            for u, v in ((x, y), (y, x)):
                if not u:
                    r = {}
                    break
                if len(u) == 1:
                    ((s, p), c), = u.items()
                    if s is None and all(q + p <= 2 for _, q in v):
                        r = {(z, q + p): c * d for (z, q), d in v.items()}
                        break
    elif o == '/' and is_c(a[1]) and a[1].args[0]:
        x = linear(a[0])
        r = None if x is None else {k: c / a[1].args[0] for k, c in x.items()}
    _lin[t.id] = r
    return r


def linrange(f):
    """((low, attained), (high, attained)) of a linear form over the declared ranges"""
    by = {}
    for (s, p), c in f.items():
        by.setdefault(s, []).append((p, c))
    lo = hi = Fr(0)
    la = ha = True
    for s, pc in by.items():
        cl = ch = Fr(0)
        for p, c in pc:
            x, y = c * PI_LO**p, c * PI_HI**p
            cl += min(x, y)
            ch += max(x, y)
        if s is None:
            lo += cl
            hi += ch
            continue
        l, h, _, lop, hop, _ = SYM[s]
        if cl < 0 < ch:
            return (-INF, False), (INF, False)
        if cl < 0:
            l, h, lop, hop = h, l, hop, lop
        # coefficient sign is fixed; the ends are attained at l (low) and h (high)
        if abs(l) == INF:
            lo = -INF
        else:
            if lo != -INF:
                lo += min(cl * Fr(l), ch * Fr(l))
            la = la and not lop
        if abs(h) == INF:
            hi = INF
        else:
            if hi != INF:
                hi += max(cl * Fr(h), ch * Fr(h))
            ha = ha and not hop
    return (lo, la), (hi, ha)
