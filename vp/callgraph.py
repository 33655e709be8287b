"""Resolved call graph over the IR, with exception-only blocks removed."""
from .model import *

NORETURN = ('__cxa_throw', '__cxa_rethrow', 'abort', '_ZSt9terminatev', '__clang_call_terminate', 'exit', '_exit', '_Unwind_Resume', '__assert_fail')
BENIGN = ('llvm.dbg', 'llvm.lifetime', 'llvm.memcpy', 'llvm.memmove', 'llvm.memset', 'llvm.fabs', 'llvm.fmuladd', 'llvm.fma', 'llvm.sqrt', 'llvm.copysign',
          'llvm.maxnum', 'llvm.minnum', 'llvm.is.fpclass', 'llvm.donothing', 'llvm.assume', 'llvm.expect', 'llvm.floor', 'llvm.ceil', 'llvm.trunc', 'llvm.round',
          'llvm.rint', 'llvm.nearbyint', 'llvm.sin', 'llvm.cos', 'llvm.exp', 'llvm.log', 'llvm.pow', 'llvm.smax', 'llvm.smin', 'llvm.umax', 'llvm.umin', 'llvm.abs',
          'llvm.stacksave', 'llvm.stackrestore', 'llvm.sadd', 'llvm.ssub', 'llvm.smul', 'llvm.uadd', 'llvm.usub', 'llvm.umul', 'llvm.trap', 'llvm.eh.', 'llvm.experimental.noalias',
          'llvm.ldexp', 'llvm.frexp', 'llvm.lround', 'llvm.lrint', 'llvm.tan', 'llvm.canonicalize', 'llvm.vector.reduce', 'llvm.bswap', 'llvm.ctpop', 'llvm.ctlz', 'llvm.cttz',
          'llvm.maximum', 'llvm.minimum', 'llvm.roundeven', 'llvm.powi', 'llvm.exp2', 'llvm.log2', 'llvm.log10', 'llvm.va_', 'llvm.objectsize', 'llvm.is.constant', 'llvm.fptosi.sat', 'llvm.load.relative',
          'llvm.invariant', 'llvm.launder', 'llvm.strip', 'llvm.prefetch')


class Graph:
    def __init__(self, prog):
        self.p = prog
        self.doomed = None
        self.live = {}
        self._compute()

    def succ(self, ins):
        L = ins[-1]
        o = L['op']
        if o == 'br':
            return list(L['t'])
        if o == 'switch':
            return [L['d']] + [c[1] for c in L['cases']]
        if o == 'invoke':
            return [L['normal']]          # the unwind edge is exceptional
        return []

    def callee(self, x):
        c = x['callee']
        return c[1] if c[0] == 'g' else None

    def _compute(self):
        raw = self.p.raw
        nr = set(NORETURN)
        for n, r in raw.items():
            if r['decl'] and (r['noreturn'] or r['dem'].startswith('std::__throw_')):
                nr.add(n)
        while True:
            new = set()
            for n, r in raw.items():
                if r['decl'] or n in nr:
                    continue
                live = self.liveblocks(r, nr)
                if r['blocks'][0]['id'] not in live:
                    new.add(n)
                self.live[n] = live
            if not new:
                break
            nr |= new
        self.doomed = nr

    def liveblocks(self, r, nr):
        """blocks on some path from entry to a normal return"""
        bl = {b['id']: b['i'] for b in r['blocks']}
        cut = {b: any(x['op'] in ('call', 'invoke') and self.callee(x) in nr for x in ins) for b, ins in bl.items()}
        pred = {b: [] for b in bl}
        good = []
        for b, ins in bl.items():
            if cut[b]:
                continue
            for s in self.succ(ins):
                pred[s].append(b)
            if ins[-1]['op'] == 'ret':
                good.append(b)
        back = set()
        st = list(good)
        while st:
            b = st.pop()
            if b in back:
                continue
            back.add(b)
            st.extend(pred[b])
        fwd = set()
        st = [r['blocks'][0]['id']]
        while st:
            b = st.pop()
            if b in fwd or b not in back:
                continue
            fwd.add(b)
            st.extend(self.succ(bl[b]))
        return fwd & back

    def sites(self, name, all_blocks=False):
        """(instruction, callee or None) of the calls on normal paths"""
        r = self.p.raw[name]
        if r['decl']:
            return
        live = self.live.get(name, set())
        for b in r['blocks']:
            if not all_blocks and b['id'] not in live:
                continue
            for x in b['i']:
                if x['op'] in ('call', 'invoke'):
                    yield x, self.callee(x)

    def reach(self, roots, all_blocks=False):
        """callee -> (caller, site) for everything reachable on normal paths"""
        par = {r: (None, None) for r in roots}
        st = list(roots)
        while st:
            n = st.pop()
            r = self.p.raw.get(n)
            if r is None or r['decl']:
                continue
            for x, c in self.sites(n, all_blocks):
                if c is None:
                    continue
                if c not in par:
                    par[c] = (n, x.get('loc'))
                    st.append(c)
        return par

    def path(self, par, n):
        r = []
        while n is not None:
            r.append((self.p.raw[n]['dem'] if n in self.p.raw else n, par[n][1]))
            n = par[n][0]
        return list(reversed(r))
