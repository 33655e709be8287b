"""Algebraic identity testing of value-flow terms (Schwartz-Zippel over F_p).

Terms are read as elements of the function field generated by the inputs and by
sqrt/sin/cos/exp/log/... of subterms; the field relations (sin^2+cos^2=1, angle
addition, exact roots of unity for rational multiples of pi, sqrt(x)^2=x,
exp(a+b)=exp(a)exp(b), x^q=exp(q log x), csqrt, atan ...) hold by construction of
the embedding into F_p.  Two terms that agree under random embeddings are equal
as functions, up to an error probability below deg/2^120 per embedding."""
import hashlib
import random
from fractions import Fraction as Fr
from math import gcd
from .terms import *

M = 2**9 * 3**4 * 5**2 * 7 * 11 * 13 * 17 * 19 * 23 * 29 * 31


def _isprime(n):
    if n < 2:
        return False
    for q in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % q == 0:
            return n == q
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def _find():
    k = (1 << 130) // M
    while True:
        # keep the p-adic valuations of p-1 at the small primes equal to those of M
        if all(k % q for q in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31)) and _isprime(k * M + 1):
            return k * M + 1
        k += 1


Pm = _find()
D = 1
for _i in range(1, 65):
    D = D * _i // gcd(D, _i)
D *= 2**8 * 5**8 * 3**2


def _gen():
    fs = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31]
    a = 2
    while True:
        # element whose order is divisible by every prime power of M
        if all(pow(a, (Pm - 1) // q, Pm) != 1 for q in fs):
            return a
        a += 1


G = _gen()
ZETA = pow(G, (Pm - 1) // M, Pm)      # primitive M-th root of unity: exp(2 pi i/M)
IM = pow(ZETA, M // 4, Pm)


class NotResidue(Exception):
    pass


class Cannot(Exception):
    pass


def inv(x):
    if x % Pm == 0:
        raise NotResidue('division by zero')
    return pow(x, -1, Pm)


_adm = {}


def root_prime(v, l):
    """an l-th root of v in F_p (l prime) or NotResidue"""
    if v == 0:
        return 0
    if (Pm - 1) % l:
        return pow(v, pow(l, -1, Pm - 1), Pm)
    if pow(v, (Pm - 1) // l, Pm) != 1:
        raise NotResidue('root')
    s, t = 0, Pm - 1
    while t % l == 0:
        t //= l
        s += 1
    # v = x^l;  AMM
    k = l_inv = pow(l, -1, t) if t > 1 else 0
    r = pow(v, k, Pm)                   # r^l = v * (v^{l*k-1}),  e = v^(l k -1) lies in the l-Sylow group
    e = pow(r, l, Pm) * inv(v) % Pm
    if e == 1:
        return r
    g = pow(G, t, Pm)                   # generator of Sylow-l group, order l^s
    # discrete log of e to base g, a multiple of l
    x = 0
    gi = inv(g)
    cur = e
    top = pow(g, l**(s - 1), Pm)
    table = {pow(top, j, Pm): j for j in range(l)}
    for i in range(s):
        h = pow(cur, l**(s - 1 - i), Pm)
        d = table[h]
        x += d * l**i
        cur = cur * pow(gi, d * l**i, Pm) % Pm
    assert x % l == 0
    return r * pow(gi, x // l, Pm) % Pm


def factor(n):
    r = []
    q = 2
    while q * q <= n:
        while n % q == 0:
            r.append(q)
            n //= q
        q += 1
    if n > 1:
        r.append(n)
    return r


class FpEval:
    def __init__(self, seed, point=None):
        self.seed = seed
        self.m = {}
        self.roots = {}
        self.pt = point or {}
        self.pm = {}
        self.roots_taken = 0

    def rnd(self, *key):
        h = hashlib.sha512(repr((self.seed,) + key).encode()).digest()
        return int.from_bytes(h[:40], 'big') % (Pm - 2) + 1

    def root(self, v, d):
        v %= Pm
        if d == 1:
            return v
        if v == 0:
            return 0
        if v in self.roots:
            d0, w0 = self.roots[v]
            if d0 % d == 0:
                return pow(w0, d0 // d, Pm)
            L = d0 * d // gcd(d0, d)
            w = w0
            for l in factor(L // d0):
                w = root_prime(w, l)
            self.roots[v] = (L, w)
            return pow(w, L // d, Pm)
        w = v
        for l in factor(d):
            w = root_prime(w, l)
        self.roots[v] = (d, w)
        self.roots_taken += 1
        return w

    # ---- polynomials: dict monomial -> Fraction; monomial: tuple of (key, exp)
    def poly(self, t):
        r = self.pm.get(t.id)
        if r is None:
            r = self._poly(t)
            self.pm[t.id] = r
        return r

    def _poly(self, t):
        o, a = t.op, t.args
        if o == 'c':
            return {(): a[0]} if a[0] else {}
        if o == 'k':
            if a[0] == 'ln2':
                return {((('logp', 2), 1),): Fr(1)}
            if a[0] == 'ln10':
                return {((('logp', 2), 1),): Fr(1), ((('logp', 5), 1),): Fr(1)}
            return {((a[0], 1),): Fr(1)}
        if o == 'sym':
            if a[0] in self.pt:
                return self.poly(self.pt[a[0]])
            return {((('s', a[0]), 1),): Fr(1)}
        if o in '+-':
            r = dict(self.poly(a[0]))
            s = 1 if o == '+' else -1
            for m, c in self.poly(a[1]).items():
                c = r.get(m, 0) + s * c
                if c:
                    r[m] = c
                else:
                    r.pop(m, None)
            return r
        if o == 'neg':
            return {m: -c for m, c in self.poly(a[0]).items()}
        if o == '*':
            x, y = self.poly(a[0]), self.poly(a[1])
            if len(x) * len(y) <= 64:
                return pmul(x, y)
        if o == '/':
            x, y = self.poly(a[0]), self.poly(a[1])
            if len(y) == 1:
                (m, c), = y.items()
                im = tuple((k, -e) for k, e in m)
                return pmul(x, {im: 1 / c})
        if o == 'log':
            return self.logpoly(a[0])
        if o in ('atan', 'asin', 'acos'):
            return {(((o, self.ev(a[0])), 1),): Fr(1)}
        if o == 'atan2':
            return {(((o, self.ev(a[0]), self.ev(a[1])), 1),): Fr(1)}
        v = self.ev(t)
        # recognise rational constants hidden in larger expressions
        return {((('v', v), 1),): Fr(1)}

    def logpoly(self, t):
        o, a = t.op, t.args
        if o == 'c' and a[0] > 0:
            r = {}
            for n, s in ((a[0].numerator, 1), (a[0].denominator, -1)):
                if n > 10**12:
                    r[((('logv', n), 1),)] = Fr(s)
                    continue
                for q in factor(n):
                    k = ((('logp', q), 1),)
                    r[k] = r.get(k, 0) + s
            return {k: c for k, c in r.items() if c}
        if o == '*':
            return padd(self.logpoly(a[0]), self.logpoly(a[1]))
        if o == '/':
            return padd(self.logpoly(a[0]), {m: -c for m, c in self.logpoly(a[1]).items()})
        if o == 'exp':
            return self.poly(a[0])
        if o == 'sqrt':
            return {m: c / 2 for m, c in self.logpoly(a[0]).items()}
        if o == 'pow':
            return pmul(self.poly(a[1]), self.logpoly(a[0]))
        v = self.ev(t)
        if v == 1:
            return {}
        return {((('log', v), 1),): Fr(1)}

    def exppoly(self, p):
        r = 1
        for m, q in p.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0][0] == 'log':
                v = m[0][0][1]
                w = self.root(v, q.denominator)
                n = q.numerator
                r = r * pow(w, n % (Pm - 1), Pm) % Pm
                continue
            if len(m) == 1 and m[0][1] == 1 and m[0][0][0] in ('logp', 'logv'):
                w = self.root(m[0][0][1], q.denominator)
                r = r * pow(w, q.numerator % (Pm - 1), Pm) % Pm
                continue
            e = q * D
            if e.denominator != 1:
                raise Cannot('exp of %s' % (q,))
            r = r * pow(self.rnd('exp', m), e.numerator % (Pm - 1), Pm) % Pm
        return r

    def unit(self, p):
        """exp(i * p)"""
        r = 1
        for m, q in p.items():
            if m == (('pi', 1),):
                e = q * M / 2
                if e.denominator != 1:
                    raise Cannot('angle %s pi' % (q,))
                r = r * pow(ZETA, e.numerator % M, Pm) % Pm
                continue
            if len(m) == 1 and m[0][1] == 1 and m[0][0][0] in ('atan', 'asin', 'acos', 'atan2'):
                k = m[0][0][0]
                x = m[0][0][1]
                if k == 'atan':
                    b = (1 + IM * x) * inv(1 - IM * x) % Pm
                    q = q / 2
                elif k == 'asin':
                    b = (self.root(1 - x * x, 2) + IM * x) % Pm
                elif k == 'acos':
                    b = (IM * self.root(1 - x * x, 2) + x) % Pm
                else:
                    y = m[0][0][2]      # atan2(x,y): angle of y + i x;  b = e^{2i}
                    b = (y + IM * x) * inv(y - IM * x) % Pm
                    q = q / 2
                w = self.root(b, q.denominator)
                r = r * pow(w, q.numerator % (Pm - 1), Pm) % Pm
                continue
            e = q * D
            if e.denominator != 1:
                raise Cannot('angle coefficient %s' % (q,))
            r = r * pow(self.rnd('unit', m), e.numerator % (Pm - 1), Pm) % Pm
        return r

    def mono(self, m):
        r = 1
        for k, e in m:
            if k == 'pi' or k == 'sqrt2':
                v = self.rnd(k) if k == 'pi' else self.root(2, 2)
            elif k[0] == 's':
                v = self.rnd('s', k[1])
            elif k[0] == 'v':
                v = k[1]
            else:
                v = self.rnd(*k)
            r = r * pow(v if e > 0 else inv(v), abs(e), Pm) % Pm
        return r

    def pval(self, p):
        return sum(c.numerator * inv(c.denominator) * self.mono(m) for m, c in p.items()) % Pm

    def ev(self, t):
        st = [t]
        m = self.m
        while st:
            x = st[-1]
            if x.id in m:
                st.pop()
                continue
            need = [a for a in x.args if isinstance(a, T) and a.id not in m and x.op != 'ite']
            if need:
                st.extend(need)
                continue
            m[x.id] = self.app(x) % Pm
            st.pop()
        return m[t.id]

    def app(self, x):
        o = x.op
        a = [self.m[y.id] for y in x.args if isinstance(y, T)]
        if o == 'c':
            f = x.args[0]
            return f.numerator * inv(f.denominator)
        if o == 'k':
            if x.args[0] in ('ln2', 'ln10'):
                return self.pval(self.poly(x))
            return self.mono(((x.args[0], 1),))
        if o == 'sym':
            if x.args[0] in self.pt:
                return self.ev(self.pt[x.args[0]])
            return self.rnd('s', x.args[0])
        if o == '+':
            return a[0] + a[1]
        if o == '-':
            return a[0] - a[1]
        if o == '*':
            return a[0] * a[1]
        if o == '/':
            return a[0] * inv(a[1])
        if o == 'neg':
            return -a[0]
        if o == 'sqrt':
            return self.root(a[0], 2)
        if o in ('sin', 'cos', 'tan'):
            u = self.unit(self.poly(x.args[0]))
            ui = inv(u)
            if o == 'cos':
                return (u + ui) * inv(2)
            if o == 'sin':
                return (u - ui) * inv(2 * IM)
            return (u - ui) * inv(IM * (u + ui))
        if o == 'exp':
            return self.exppoly(self.poly(x.args[0]))
        if o in ('sinh', 'cosh', 'tanh'):
            e = self.exppoly(self.poly(x.args[0]))
            ei = inv(e)
            if o == 'sinh':
                return (e - ei) * inv(2)
            if o == 'cosh':
                return (e + ei) * inv(2)
            return (e - ei) * inv(e + ei)
        if o == 'pow':
            return self.exppoly(pmul(self.poly(x.args[1]), self.logpoly(x.args[0])))
        if o in ('log', 'atan', 'asin', 'acos', 'atan2'):
            return self.pval(self.poly(x))
        if o in ('csqrt_re', 'csqrt_im'):
            u = self.root(a[0] + IM * a[1], 2)
            v = self.root(a[0] - IM * a[1], 2)
            return (u + v) * inv(2) if o == 'csqrt_re' else (u - v) * inv(2 * IM)
        if o == 'sp' or o == 'ite':
            raise Cannot(o)
        return self.rnd('op', o, tuple(a), tuple(str(y) if not isinstance(y, I) else id(y) for y in x.args if not isinstance(y, T)))


def pmul(x, y):
    r = {}
    for m1, c1 in x.items():
        for m2, c2 in y.items():
            d = dict(m1)
            for k, e in m2:
                d[k] = d.get(k, 0) + e
            m = tuple(sorted(((k, e) for k, e in d.items() if e), key=repr))
            c = r.get(m, 0) + c1 * c2
            if c:
                r[m] = c
            else:
                r.pop(m, None)
    return r


def padd(x, y):
    r = dict(x)
    for m, c in y.items():
        c = r.get(m, 0) + c
        if c:
            r[m] = c
        else:
            r.pop(m, None)
    return r


def identical(pairs, trials=2, retries=3000, point=None, upto=None, seed=0):
    """pairs: list of (a,b) terms; True if all equal under `trials` random
    embeddings, False if some pair differs, None if no embedding was found.
    upto='sign': each pair only has to agree up to sign."""
    ok = 0
    for k in range(retries):
        e = FpEval((seed, k), point)
        try:
            for a, b in pairs:
                x, y = e.ev(a), e.ev(b)
                if x != y and not (upto == 'sign' and (x + y) % Pm == 0):
                    return False
        except NotResidue:
            continue
        except Cannot:
            return None
        ok += 1
        if ok >= trials:
            return True
    return None
