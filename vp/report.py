"""Evidence, known findings, verdict lines."""
import gc, hashlib, json, mmap, os, pickle, resource, signal, struct, sys, time, traceback
from .model import VERIF, Broken
from .engine import Incomplete

MORE = 77
GROWTH, LIMIT = 600 << 20, 3 << 30


def rss():
    with open('/proc/self/statm') as f:
        return int(f.read().split()[1]) * resource.getpagesize()


KF = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')


def known():
    r = {}
    if os.path.exists(KF):
        for l in open(KF):
            l = l.strip()
            if l.startswith('finding: '):
                # finding: property=C05 key=<key> <what fails>
                w = l.split(' ', 3)
                r[(w[1].split('=', 1)[1], w[2].split('=', 1)[1])] = w[3] if len(w) > 3 else ''
    return r


class Report:
    def __init__(self, pid, rule, tier, seed):
        self.pid, self.rule, self.tier, self.seed = pid, rule, tier, seed
        self.t0 = time.time()
        self.n = {}
        self.samples = []
        self.viol = []
        self.undecided = []
        self.cover = {}
        self.assume = []
        self.seen = set()
        self.functions = set()
        self.broken = []

    def thorough(self):
        return self.tier == 'thorough'

    def ob(self, desc, how='decided', k=1):
        self.n[how] = self.n.get(how, 0) + k
        if len([s for s in self.samples if s[0] == how]) < 30:
            self.samples.append((how, desc))

    def violate(self, key, msg, loc=None, witness=None):
        key = key.replace(' ', '_')
        self.n['violated'] = self.n.get('violated', 0) + 1
        if key in self.seen:
            return
        self.seen.add(key)
        self.viol.append(dict(key=key, message=msg, location=loc, witness=witness))

    def undec(self, desc, why):
        self.n['undecided'] = self.n.get('undecided', 0) + 1
        if len(self.undecided) < 60:
            self.undecided.append('%s: %s' % (desc, why))

    def decide(self, desc, key, verdict, loc=None):
        """record a Verdict of the algebra"""
        if verdict.ok:
            self.ob(desc, verdict.how)
        else:
            self.violate(key, '%s: %s' % (desc, verdict.detail), loc, verdict.witness)
        return verdict.ok

    def guard(self, desc, f, *a, **k):
        """run one obligation; an unsupported construct makes it undecided"""
        try:
            return f(*a, **k)
        except Incomplete as e:
            self.undec(desc, str(e))
        except RecursionError:
            self.undec(desc, 'term too deep')
        except MemoryError:
            gc.collect()
            self.undec(desc, 'memory limit of the worker')

    # ---- time limits: an obligation that cannot be finished is undecided, never an alarm
    def limits(self):
        q = not self.thorough()
        return (150 if q else 900), (620 if q else 5400), (40 if q else 240)

    def arm(self, shared):
        """start the clock of one task; afterwards Incomplete is raised at intervals until the task ends"""
        task, total, after = self.limits()
        now = time.time()
        end = min(now + task, self.t0 + total)
        tv = struct.unpack('d', shared[:8])[0]
        if tv:
            end = min(end, tv + after)
        left = end - now
        if left <= 0:
            return False

        def hit(*_):
            raise Incomplete('time limit')
        signal.signal(signal.SIGALRM, hit)
        signal.setitimer(signal.ITIMER_REAL, left, 2)
        return True

    def disarm(self, shared):
        signal.setitimer(signal.ITIMER_REAL, 0)
        if self.viol and not struct.unpack('d', shared[:8])[0]:
            shared[:8] = struct.pack('d', time.time())

    def par(self, m, tasks, workers=None):
        """run [(label, function)] in forked workers and merge what they recorded"""
        if os.environ.get('VP_ONLY'):
            tasks = [t for t in tasks if os.environ['VP_ONLY'] in t[0]]
        workers = min(workers or os.cpu_count() or 4, len(tasks), 12)
        if workers <= 1 or os.environ.get('VP_SERIAL'):
            for lab, f in tasks:
                self.guard(lab, f)
            self.use(m)
            return
        rq, wq = os.pipe()
        os.write(wq, b''.join(i.to_bytes(4, 'little') for i in range(len(tasks))))
        os.close(wq)
        kids = []
        shared = mmap.mmap(-1, 4096)
        sys.stdout.flush()
        for w in range(workers):
            out = os.memfd_create('vp-worker')
            pid = os.fork()
            if pid == 0:
                # supervisor: replace the worker by a fresh copy whenever its tables have grown large
                code = 0
                while not code:
                    kid = os.fork()
                    if kid == 0:
                        self.worker(m, tasks, rq, out, shared)
                    code = os.waitstatus_to_exitcode(os.waitpid(kid, 0)[1])
                    if code == MORE:
                        code = 0
                    elif code == 0:
                        os._exit(0)
                os._exit(code if code > 0 else 3)
            kids.append((pid, out))
        os.close(rq)
        for pid, out in kids:
            _, code = os.waitpid(pid, 0)
            if code:
                self.broken.append('analysis worker died')
            os.lseek(out, 0, 0)
            with os.fdopen(out, 'rb') as f:
                while True:
                    try:
                        x = pickle.load(f)
                    except EOFError:
                        break
                    self.merge(x)
        self.viol.sort(key=lambda v: v['key'])

    def worker(self, m, tasks, rq, out, shared):
        code = 0
        try:
            self.n, self.samples, self.undecided, self.cover, self.functions, self.broken = {}, [], [], {}, set(), []
            nv = len(self.viol)
            m.ncalls = m.e.steps = 0
            base = rss()
            resource.setrlimit(resource.RLIMIT_DATA, (LIMIT + base, LIMIT + base))
            while True:
                if rss() - base > GROWTH:
                    code = MORE
                    break
                b = os.read(rq, 4)
                if len(b) < 4:
                    break
                lab, f = tasks[int.from_bytes(b, 'little')]
                t0 = time.time()
                if os.environ.get('VP_TIME') == '2':
                    print('  start %s' % lab, file=sys.stderr)
                try:
                    if self.arm(shared):
                        self.guard(lab, f)
                    else:
                        self.undec(lab, 'not started: time limit of the check')
                except Broken as e:
                    self.broken.append('%s: %s' % (lab, e))
                except Incomplete as e:
                    self.undec(lab, str(e))
                for _ in range(3):
                    try:
                        self.disarm(shared)
                        break
                    except Incomplete:
                        pass
                if os.environ.get('VP_TIME'):
                    print('  %6.1fs %s' % (time.time() - t0, lab), file=sys.stderr)
                self.budget0(m)
            self.use(m)
            data = pickle.dumps((self.n, self.samples, self.viol[nv:], self.undecided, self.cover, self.functions, self.broken))
            while data:
                data = data[os.write(out, data):]
        except BaseException:
            traceback.print_exc()
            code = 3
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)

    def merge(self, x):
        n, sm, viol, und, cov, fns, br = x
        for k, v in n.items():
            self.n[k] = self.n.get(k, 0) + v
        for q in sm:
            if len([s for s in self.samples if s[0] == q[0]]) < 6:
                self.samples.append(q)
        for v in viol:
            if v['key'] not in self.seen:
                self.seen.add(v['key'])
                self.viol.append(v)
        self.undecided += und[:max(0, 60 - len(self.undecided))]
        for k, v in cov.items():
            self.cover[k] = self.cover.get(k, 0) + v
        self.functions |= fns
        self.broken += br

    def budget0(self, m):
        self.cover['ir_instructions_interpreted'] = self.cover.get('ir_instructions_interpreted', 0) + m.e.steps
        m.e.steps = 0

    def use(self, m):
        """record what was analysed"""
        self.functions |= m.e.calls
        self.cover['calls_composed'] = self.cover.get('calls_composed', 0) + m.ncalls
        self.cover['ir_instructions_interpreted'] = self.cover.get('ir_instructions_interpreted', 0) + m.e.steps
        m.ncalls = 0
        m.e.steps = 0

    def finish(self, minimum=1):
        kn = known()
        total = sum(self.n.values())
        good = total - self.n.get('undecided', 0)
        code = 0
        nv = 0
        if self.broken and not self.viol:
            print('ANALYSIS-BROKEN property=%s: %s' % (self.pid, self.broken[0]))
            return 2
        for v in self.viol:
            if (self.pid, v['key']) in kn:
                print('KNOWN-FINDING: property=%s %s [%s]' % (self.pid, kn[(self.pid, v['key'])], v['key']))
                continue
            nv += 1
            if nv > 25:
                continue
            d = os.path.join(VERIF, 'replay')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, '%s-%s.json' % (self.pid, hashlib.sha1(v['key'].encode()).hexdigest()[:10]))
            with open(path, 'w') as f:
                json.dump(dict(property=self.pid, rule=self.rule, **v), f, indent=1, default=str)
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            print('  at %s' % v['location'])
            print('  %s' % v['message'])
            if v['witness'] is not None:
                print('  inputs: %s' % (v['witness'],))
            code = 1
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level='other', wall_s=round(time.time() - self.t0, 2), violations=nv, assumptions=self.assume,
                  coverage=dict(explanation=self.rule, obligations_total=total, obligations_decided=good, by_verdict=self.n,
                                functions_analysed=len(self.functions), samples=['[%s] %s' % s for s in self.samples],
                                undecided=self.undecided, **self.cover))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        tmp = os.path.join(VERIF, 'evidence', self.pid + '.json.%d' % os.getpid())
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(VERIF, 'evidence', self.pid + '.json'))
        print('%s: %d obligations, %s, %d functions, %.1fs' % (self.pid, total, self.n, len(self.functions), time.time() - self.t0))
        if code == 0 and good < minimum:
            print('ANALYSIS-BROKEN property=%s: only %d obligations decided, expected at least %d' % (self.pid, good, minimum))
            for u in self.undecided[:10]:
                print('   undecided: ' + u)
            return 2
        return code
