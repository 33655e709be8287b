"""Inclusion-based, context- and flow-insensitive points-to analysis and the write
effects on objects of static storage, over the functions reachable from given roots."""
from .callgraph import Graph

GUARDS = ('__cxa_guard_acquire', '__cxa_guard_release', '__cxa_guard_abort')
STATEFUL = {'rand', 'srand', 'random', 'srandom', 'drand48', 'srand48', 'lrand48', 'erand48', 'rand_r', 'strtok', 'setlocale', 'fesetround', 'fesetenv', 'feenableexcept',
            'setenv', 'putenv', 'time', 'clock', 'getenv', 'signal', 'lgamma', 'localtime', 'gmtime', 'ctime', 'tmpnam', 'strerror', 'feholdexcept', 'fesetexceptflag'}
READONLY_EXT = ('__cxa_', '_ZSt9terminate', '__gxx', '_ZNSt16invalid_argument', '_ZNSt12length', '_ZNSt11logic', '_ZNSt12out_of', 'strlen', 'memcmp', 'strcmp', 'printf', 'puts')


class PointsTo:
    def __init__(self, prog, roots):
        self.p = prog
        self.g = Graph(prog)
        self.par = self.g.reach(roots, all_blocks=True)
        self.par.update({})
        self.fns = [n for n in self.par if n in prog.raw and not prog.raw[n]['decl']]
        self.pts = {}
        self.mem = {}
        self.writes = []
        self.stateful = []
        self.sites = 0
        # address-taken functions called through pointers: treated as reachable
        self.build()
        self.solve()
        self.collect()

    def mutable(self, name):
        g = self.p.globals.get(name)
        return g is not None and not g['const'] and not name.startswith(('_ZTV', '_ZTI', '_ZTS', '_ZGV', 'llvm.', '__dso'))

    def initblocks(self, r):
        """blocks between a successful guard acquisition and its release"""
        bl = {b['id']: b['i'] for b in r['blocks']}
        acq, rel = None, set()
        start = []
        for b, ins in bl.items():
            hit = None
            for x in ins:
                if x['op'] in ('call', 'invoke') and x['callee'][0] == 'g' and x['callee'][1] in GUARDS:
                    if x['callee'][1] == GUARDS[0]:
                        hit = x['id']
                    else:
                        rel.add(b)
            if hit is not None and ins[-1]['op'] == 'br' and len(ins[-1]['t']) == 2:
                # br (icmp ne acquire, 0), init, end
                start.append(ins[-1]['t'][0])
        out = set()
        st = list(start)
        while st:
            b = st.pop()
            if b in out:
                continue
            out.add(b)
            if b in rel:
                continue
            L = bl[b][-1]
            st += L.get('t', []) if L['op'] == 'br' else [L['normal'], L['unwind']] if L['op'] == 'invoke' else [c[1] for c in L.get('cases', [])] + ([L['d']] if 'd' in L else [])
        return out

    def node(self, n):
        return self.pts.setdefault(n, set())

    def opn(self, f, op, init):
        """node of an operand (None: no pointer)"""
        if op[0] == 'l':
            return ('v', f, op[1])
        if op[0] == 'g':
            n = ('c', op[1], init)
            s = self.pts.get(n)
            if s is None:
                s = self.pts[n] = set()
                if op[1] in self.p.raw:
                    s.add(('fn', op[1]))
                elif self.mutable(op[1]) or op[1] not in self.p.globals:
                    s.add(('init' if init else 'glob', op[1]))
            return n
        return None

    def build(self):
        self.copy, self.loads, self.stores, self.calls = [], [], [], []
        for f in self.fns:
            r = self.p.raw[f]
            ib = self.initblocks(r)
            for b in r['blocks']:
                init = b['id'] in ib
                for x in b['i']:
                    o = x['op']
                    me = ('v', f, x['id'])
                    if o == 'alloca':
                        self.node(me).add(('stack', f, x['id']))
                    elif o == 'getelementptr':
                        self.cp(self.opn(f, x['base'], init), me)
                    elif o == 'phi':
                        for op, _ in x['in']:
                            self.cp(self.opn(f, op, init), me)
                    elif o in ('select', 'bitcast', 'addrspacecast', 'inttoptr', 'ptrtoint', 'freeze', 'extractvalue', 'insertvalue', 'add', 'sub', 'and', 'or'):
                        for op in x['ops']:
                            self.cp(self.opn(f, op, init), me)
                    elif o == 'load':
                        self.sites += 1
                        a = self.opn(f, x['p'], init)
                        if a and x['ty'] not in ('double', 'float', 'i1', 'i8', 'i16', 'i32'):
                            self.loads.append((a, me))
                    elif o == 'store':
                        self.sites += 1
                        a = self.opn(f, x['p'], init)
                        if a:
                            self.stores.append((a, self.opn(f, x['v'], init), f, x.get('loc')))
                    elif o in ('atomicrmw', 'cmpxchg'):
                        a = self.opn(f, x['ops'][0], init)
                        if a:
                            self.stores.append((a, None, f, x.get('loc')))
                    elif o in ('call', 'invoke'):
                        self.sites += 1
                        self.calls.append((f, x, init))
                        c = x['callee']
                        if c[0] == 'g':
                            self.bind(f, x, init, c[1])
                    elif o == 'ret' and x['ops']:
                        self.cp(self.opn(f, x['ops'][0], init), ('r', f))

    def cp(self, a, b):
        if a is not None:
            self.copy.append((a, b))

    def bind(self, f, x, init, c):
        me = ('v', f, x['id'])
        r = self.p.raw.get(c)
        ops = [self.opn(f, a, init) for a in x['args']]
        loc = x.get('loc')
        if r is None or r['decl']:
            if c.startswith(('llvm.memcpy', 'llvm.memmove')) or c in ('memcpy', 'memmove'):
                t = ('t', f, x['id'])
                if ops[1]:
                    self.loads.append((ops[1], t))
                if ops[0]:
                    self.stores.append((ops[0], t, f, loc))
                self.cp(ops[0], me)
            elif c.startswith('llvm.memset') or c == 'memset':
                if ops[0]:
                    self.stores.append((ops[0], None, f, loc))
                self.cp(ops[0], me)
            elif c.startswith('llvm.threadlocal.address'):
                self.cp(ops[0], me)
            elif c.startswith('llvm.') or c.startswith(GUARDS):
                pass
            elif c in ('_Znwm', '_Znam', 'malloc', 'calloc', 'realloc', '__cxa_allocate_exception'):
                self.node(me).add(('heap', f, x['id']))
            else:
                if c in STATEFUL:
                    self.stateful.append((c, f, loc))
                if not c.startswith(READONLY_EXT):
                    for a in ops:
                        if a:
                            self.stores.append((a, None, f, loc))
                for a in ops:
                    self.cp(a, me)
            return
        for p, a in zip(r['args'], ops):
            self.cp(a, ('v', c, p))
        self.cp(('r', c), me)

    def solve(self):
        done = set()
        while True:
            ch = False
            for a, b in self.copy:
                s = self.pts.get(a)
                if s:
                    d = self.node(b)
                    n = len(d)
                    d |= s
                    ch |= len(d) != n
            for a, b in self.loads:
                d = self.node(b)
                n = len(d)
                for o in self.pts.get(a, ()):
                    d |= self.mem.get(o, set())
                ch |= len(d) != n
            for a, v, f, loc in self.stores:
                s = self.pts.get(v) if v else None
                if s:
                    for o in self.pts.get(a, ()):
                        d = self.mem.setdefault(o, set())
                        n = len(d)
                        d |= s
                        ch |= len(d) != n
            for f, x, init in list(self.calls):
                c = x['callee']
                if c[0] == 'l':
                    for o in self.pts.get(('v', f, c[1]), ()):
                        if o[0] == 'fn' and (f, x['id'], o[1]) not in done:
                            done.add((f, x['id'], o[1]))
                            self.bind(f, x, init, o[1])
                            ch = True
            if not ch:
                return

    def collect(self):
        for a, v, f, loc in self.stores:
            for o in self.pts.get(a, ()):
                if o[0] == 'glob':
                    self.writes.append((o[1], f, loc))
