"""C29 compile-time shape of the public interface"""
import os, re, subprocess, tempfile
from ..lib import *
from .. import model

RULE = ('Type-level witnesses: one static assertion per documented fact (defaults of the template arguments, overloads with their parameter counts and result types, sample types, const '
        'queries) and per excluded misuse (wrong coefficient array, section modified through operator[], storage without an array, direct access to delay lines, coefficients and storage), '
        'generated for every class and compiled against the headers; each public header must also be accepted on its own and twice, in C++11 to C++20. An assertion that fails or an '
        'expression the compiler refuses is the violation.')

PRE = '''#include "Iir.h"
#include <type_traits>
#include <utility>
using namespace Iir;
template <class...> struct vt { typedef void type; };
template <class T> T &lv();
template <class T> const T &cv();
template <class A, class B> struct same : std::is_same<A, B> {};
'''


def detector(name, expr):
    """is the expression (in T) well formed?"""
    return 'template <class T, class = void> struct %s : std::false_type {}; template <class T> struct %s<T, typename vt<decltype(%s)>::type> : std::true_type {};\n' % (name, name, expr)


class Unit:
    def __init__(self):
        self.pre, self.lines, self.n = PRE, [], 0

    def sure(self, cond, what, key):
        self.lines.append(('static_assert(%s, "x");' % cond, what, key))

    def never(self, cls, expr, what, key):
        self.n += 1
        self.pre += detector('d%d' % self.n, expr)
        self.sure('!d%d<%s>::value' % (self.n, cls), what, key)


SAMPLES = ['double', 'float', 'int', 'short', 'long', 'unsigned char']
PRIVATE = {'m_stages': 'sections', 'm_states': 'delay lines', 'm_numStages': 'stage count', 'm_stageArray': 'sections', 'm_maxStages': 'capacity', 'm_analogStorage': 'prototype', 'm_digitalStorage': 'poles and zeros',
           'm_digitalProto': 'poles and zeros', 'm_analogProto': 'prototype'}


def samples(u, c, nm):
    for s in SAMPLES:
        u.sure('same<decltype(lv<%s >().filter(std::declval<%s>())), %s>::value' % (c, s, s), '%s::filter() of a %s returns a %s' % (nm, s, s), nm + '/filter')
    u.sure('same<decltype(lv<%s >().reset()), void>::value' % c, '%s::reset()' % nm, nm + '/reset')


def copyable(u, c, nm):
    for t in ('is_default_constructible', 'is_copy_constructible', 'is_copy_assignable', 'is_move_constructible', 'is_move_assignable', 'is_destructible'):
        u.sure('std::%s<%s >::value' % (t, c), '%s: %s' % (nm, t.replace('_', ' ')), nm + '/copy')


def queries(u, c, nm, stages):
    u.sure('same<decltype(cv<%s >().response(0.1)), std::complex<double> >::value' % c, '%s: response() of a const object is a complex number' % nm, nm + '/const')
    u.sure('same<decltype(cv<%s >().getPoleZeros()), std::vector<PoleZeroPair> >::value' % c, '%s: getPoleZeros() of a const object' % nm, nm + '/const')
    if stages:
        u.sure('same<decltype(cv<%s >().getNumStages()), int>::value' % c, '%s: getNumStages() of a const object' % nm, nm + '/const')
    else:
        for g in ('getA0', 'getA1', 'getA2', 'getB0', 'getB1', 'getB2'):
            u.sure('same<decltype(cv<%s >().%s()), double>::value' % (c, g), '%s: %s() of a const object' % (nm, g), nm + '/const')


def pole_unit(fam):
    u = Unit()
    for kind in gen.KINDS:
        q = '%s::%s' % (fam, kind)
        np = len(gen.params(fam, kind))
        u.sure('same<%s<>, %s<4, DirectFormII> >::value' % (q, q), '%s: order 4 and Direct Form II by default' % q, q + '/default')
        u.sure('same<%s<3>, %s<3, DirectFormII> >::value' % (q, q), '%s: Direct Form II by default' % q, q + '/default')
        u.sure('!same<%s<3>, %s<4> >::value' % (q, q), '%s: the order is part of the type' % q, q + '/default')
        for n, st in ((1, 'DirectFormII'), (2, 'DirectFormI'), (5, 'TransposedDirectFormII')):
            c = '%s<%d, %s>' % (q, n, st)
            for num in ('0.1', '1', '1.f'):
                a = ', '.join([num] * np)
                u.sure('same<decltype(lv<%s >().setupN(%s)), void>::value' % (c, a), '%s: setupN of the normalised parameters' % c, q + '/overload')
                u.sure('same<decltype(lv<%s >().setupN(1, %s)), void>::value' % (c, a), '%s: setupN with a requested order' % c, q + '/overload')
                u.sure('same<decltype(lv<%s >().setup(%s, %s)), void>::value' % (c, num, a), '%s: setup with a sampling rate' % c, q + '/overload')
                u.sure('same<decltype(lv<%s >().setup(1, %s, %s)), void>::value' % (c, num, a), '%s: setup with a requested order and a sampling rate' % c, q + '/overload')
            u.sure('std::is_base_of<Cascade, %s >::value' % c, '%s is a Cascade' % c, q + '/base')
            samples(u, c, q)
            copyable(u, c, q)
            queries(u, c, q, True)
            u.sure('same<decltype((lv<%s >())[0]), const Biquad &>::value' % c, '%s: operator[] gives read-only access to a section' % c, q + '/index')
            for x, w in PRIVATE.items():
                u.never(c, 'lv<T>().%s' % x, '%s: no direct access to the %s' % (c, w), q + '/private')
    return u


def rbj_unit():
    u = Unit()
    for kind in gen.RBJK:
        c = 'RBJ::' + kind
        np = len(gen.RBJK[kind])
        for num in ('0.1', '1', '1.f'):
            for n in ([np, np - 1] if kind in gen.RBJDEF else [np]):
                a = ', '.join([num] * n)
                u.sure('same<decltype(lv<%s>().setupN(%s)), void>::value' % (c, a), '%s: setupN with %d arguments' % (c, n), c + '/overload')
                u.sure('same<decltype(lv<%s>().setup(%s, %s)), void>::value' % (c, num, a), '%s: setup with a sampling rate and %d arguments' % (c, n), c + '/overload')
        u.sure('std::is_base_of<Biquad, %s>::value' % c, '%s is a Biquad' % c, c + '/base')
        u.sure('same<decltype(lv<%s>().getState()), const DirectFormI &>::value' % c, '%s: getState() gives read-only access to a Direct Form I state' % c, c + '/state')
        samples(u, c, c)
        copyable(u, c, c)
        queries(u, c, c, False)
        u.never(c, 'lv<T>().state', '%s: no direct access to the delay lines' % c, c + '/private')
    return u


def rest_unit():
    u = Unit()
    for n in (1, 2, 5):
        u.sure('same<Custom::SOSCascade<%d>, Custom::SOSCascade<%d, DirectFormII> >::value' % (n, n), 'SOSCascade: Direct Form II by default', 'SOSCascade/default')
        for st in gen.STATES:
            c = 'Custom::SOSCascade<%d, %s>' % (n, st)
            u.sure('same<decltype(lv<%s >().setup(cv<double[%d][6]>())), void>::value' % (c, n), '%s::setup accepts double[%d][6]' % (c, n), 'SOSCascade/setup')
            u.sure('std::is_constructible<%s, const double (&)[%d][6]>::value' % (c, n), '%s can be built from double[%d][6]' % (c, n), 'SOSCascade/setup')
            for r, k in ((n + 1, 6), (n, 5), (n, 7), (n + 2, 6)) + (((n - 1, 6),) if n > 1 else ()):
                u.never(c, 'lv<T>().setup(cv<double[%d][%d]>())' % (r, k), '%s::setup refuses double[%d][%d]' % (c, r, k), 'SOSCascade/wrong-size')
                u.sure('!std::is_constructible<%s, const double (&)[%d][%d]>::value' % (c, r, k), '%s cannot be built from double[%d][%d]' % (c, r, k), 'SOSCascade/wrong-size')
            u.never(c, 'lv<T>().setup(cv<float[%d][6]>())' % n, '%s::setup refuses float[%d][6]' % (c, n), 'SOSCascade/wrong-size')
            u.never(c, 'lv<T>().setup(static_cast<const double *>(nullptr))', '%s::setup refuses a pointer' % c, 'SOSCascade/wrong-size')
            samples(u, c, 'SOSCascade')
            copyable(u, c, 'SOSCascade')
            for x in ('m_stages', 'm_states'):
                u.never(c, 'lv<T>().%s' % x, '%s: no direct access to the %s' % (c, PRIVATE[x]), 'SOSCascade/private')
    for c, n in (('Custom::OnePole', 3), ('Custom::TwoPole', 5)):
        for num in ('0.1', '1', '1.f'):
            u.sure('same<decltype(lv<%s>().setup(%s)), void>::value' % (c, ', '.join([num] * n)), '%s::setup with %d numbers' % (c, n), c + '/overload')
        u.sure('std::is_base_of<Biquad, %s>::value' % c, '%s is a Biquad' % c, c + '/base')
        copyable(u, c, c)
        queries(u, c, c, False)
        for st in gen.STATES:
            u.sure('same<decltype(cv<%s>().filter(0.5, lv<%s>())), double>::value' % (c, st), '%s: filter() through a user held %s' % (c, st), c + '/filter')
    u.sure('!std::is_default_constructible<Cascade::Storage>::value', 'Cascade::Storage needs its array', 'Cascade/Storage')
    u.sure('std::is_constructible<Cascade::Storage, int, Biquad *>::value', 'Cascade::Storage from a size and an array', 'Cascade/Storage')
    u.sure('same<decltype(lv<Cascade>()[0]), const Biquad &>::value', 'Cascade::operator[] gives read-only access', 'Cascade/index')
    queries(u, 'Cascade', 'Cascade', True)
    u.sure('DEFAULT_FILTER_ORDER == 4', 'the default order is 4', 'default-order')
    u.sure('same<DEFAULT_STATE, DirectFormII>::value', 'the default topology is Direct Form II', 'default-state')
    u.sure('same<complex_t, std::complex<double> >::value', 'complex numbers are double precision', 'complex')
    for st in gen.STATES:
        copyable(u, st, st)
        u.sure('same<decltype(lv<%s>().filter(0.5, cv<Biquad>())), double>::value' % st, '%s::filter() of a double through a const section' % st, st + '/filter')
        u.sure('same<decltype(lv<%s>().reset()), void>::value' % st, '%s::reset()' % st, st + '/reset')
    return u


def run(rep):
    units = [(f, pole_unit(f)) for f in gen.FAMS] + [('RBJ', rbj_unit()), ('others', rest_unit())]
    jobs = []
    for nm, u in units:
        for std in ('c++11', 'c++20') if not rep.thorough() else ('c++11', 'c++14', 'c++17', 'c++20', 'c++23'):
            jobs.append(lambda nm=nm, u=u, std=std: witness(rep, nm, u, std))
    # the headers Iir.h hands to the user
    heads = [x for x in ('Common', 'Biquad', 'Cascade', 'PoleFilter', 'State', 'Butterworth', 'ChebyshevI', 'ChebyshevII', 'Custom', 'RBJ') if os.path.exists(os.path.join(model.REPO, 'iir', x + '.h'))]
    for h in ['Iir.h'] + ['iir/%s.h' % x for x in heads]:
        for std in ('c++11', 'c++14', 'c++17', 'c++20'):
            jobs.append(lambda h=h, std=std: alone(rep, h, std))
    with model.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for f in [ex.submit(j) for j in jobs]:
            f.result()
    rep.viol.sort(key=lambda v: v['key'])
    rep.cover['headers'] = len(heads) + 1
    rep.cover['witness_units'] = len(units)
    return rep.finish(3000)


def compiler(text, std, extra=()):
    with tempfile.TemporaryDirectory(prefix='vp-') as d:
        f = os.path.join(d, 'w.cpp')
        with open(f, 'w') as o:
            o.write(text)
        r = subprocess.run(['clang++', '-std=' + std, '-fsyntax-only', '-ferror-limit=0', '-ftemplate-backtrace-limit=1', '-w', *extra, '-I' + model.REPO, f], capture_output=True, text=True)
        return r.returncode, r.stderr


def witness(rep, nm, u, std):
    head = u.pre.count('\n')
    text = u.pre + ''.join(l + '\n' for l, _, _ in u.lines)
    rc, err = compiler(text, std)
    bad = {}
    other = None
    for l in err.splitlines():
        x = re.match(r'(.*?):(\d+):\d+: (?:fatal )?error: (.*)', l)
        if x and x.group(1).endswith('/w.cpp') and int(x.group(2)) > head:
            bad.setdefault(int(x.group(2)) - head - 1, x.group(3))
        elif x and other is None:
            other = l
    if rc and not bad and other is None:
        raise Broken('compiler: ' + err[-300:])
    if other is not None and not bad:
        rep.violate('%s/headers' % nm, 'the headers are not accepted (%s): %s' % (std, other), other.split(': ')[0])
        return
    for i, (l, what, key) in enumerate(u.lines):
        if i in bad:
            rep.violate(key, '%s: does not hold in %s (%s): %s' % (what, std, bad[i][:160], l[:200]), other.split(': ')[0] if other else 'headers of %s' % nm)
        else:
            rep.ob('%s (%s)' % (what, std), 'static_assert')


def alone(rep, h, std):
    for text, what in (('#include "%s"\n' % h, 'alone'), ('#include "%s"\n#include "Iir.h"\n#include "%s"\n' % (h, h), 'twice and with the others')):
        rc, err = compiler(text, std)
        if rc:
            first = [l for l in err.splitlines() if 'error' in l][:1] or [err[-200:]]
            rep.violate('header/%s' % h, '%s is not accepted %s in %s: %s' % (h, what, std, first[0]), h)
        else:
            rep.ob('%s is accepted %s in %s' % (h, what, std), 'compiler')
