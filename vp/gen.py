"""Driver generator: thin extern "C" wrappers around the public API of /repo.

Every wrapper is one call (or one getter sequence) of a public member, so that the
analysis composes histories out of public operations only.  The drivers are compiled
to IR and analysed; they are never linked or run."""

KINDS = {'LowPass': ['fc'], 'HighPass': ['fc'], 'BandPass': ['fc', 'fw'], 'BandStop': ['fc', 'fw'],
         'LowShelf': ['fc', 'gain'], 'HighShelf': ['fc', 'gain'], 'BandShelf': ['fc', 'fw', 'gain']}
FAMS = {'Butterworth': [], 'ChebyshevI': ['ripple'], 'ChebyshevII': ['stop']}
RBJK = {'LowPass': ['fc', 'q'], 'HighPass': ['fc', 'q'], 'BandPass1': ['fc', 'q'], 'BandPass2': ['fc', 'q'], 'BandStop': ['fc', 'q'],
        'IIRNotch': ['fc', 'q'], 'LowShelf': ['fc', 'gain', 'slope'], 'HighShelf': ['fc', 'gain', 'slope'],
        'BandShelf': ['fc', 'gain', 'bw'], 'AllPass': ['fc', 'q']}
RBJDEF = ['LowPass', 'HighPass', 'IIRNotch', 'LowShelf', 'HighShelf', 'AllPass']   # types whose last argument has a default
STATES = ['DirectFormI', 'DirectFormII', 'TransposedDirectFormII']


def params(fam, kind):
    if fam == 'RBJ':
        return RBJK[kind]
    return KINDS[kind] + FAMS[fam]


HEAD = '''#include "Iir.h"
#include <new>
#include <utility>
#include "vp.h"
static inline void vp_biquad(const Iir::Biquad &b, double *o) {
  o[0] = b.getA0(); o[1] = b.getA1(); o[2] = b.getA2(); o[3] = b.getB0(); o[4] = b.getB1(); o[5] = b.getB2(); }
static inline void vp_pair(const Iir::PoleZeroPair &p, double *o) {
  o[0] = p.poles.first.real(); o[1] = p.poles.first.imag(); o[2] = p.poles.second.real(); o[3] = p.poles.second.imag();
  o[4] = p.zeros.first.real(); o[5] = p.zeros.first.imag(); o[6] = p.zeros.second.real(); o[7] = p.zeros.second.imag(); }
extern "C" {
'''
TAIL = '\n}\n'


def basic(p, cls, filt='double float int'.split()):
    s = 'typedef %s %s_T;\n' % (cls, p)
    s += 'long %s_size() { return sizeof(%s_T); }\n' % (p, p)
    s += 'void %s_new(void *o) { new (o) %s_T; }\n' % (p, p)
    s += 'void %s_del(%s_T *o) { o->~%s_T(); }\n' % (p, p, p)
    s += 'void %s_copy(void *o, const %s_T *s) { new (o) %s_T(*s); }\n' % (p, p, p)
    s += 'void %s_assign(%s_T *o, const %s_T *s) { *o = *s; }\n' % (p, p, p)
    s += 'void %s_moveassign(%s_T *o, %s_T *s) { *o = std::move(*s); }\n' % (p, p, p)
    s += 'void %s_move(void *o, %s_T *s) { new (o) %s_T(std::move(*s)); }\n' % (p, p, p)
    for t in filt:
        s += '%s %s_f%s(%s_T *o, %s x) { return o->filter(x); }\n' % (t, p, {'double': 'd', 'float': 'f', 'int': 'i', 'short': 's', 'long': 'l'}[t], p, t)
    s += 'void %s_reset(%s_T *o) { o->reset(); }\n' % (p, p)
    return s


def pole(p, fam, kind, order, state=None):
    cls = 'Iir::%s::%s<%d%s>' % (fam, kind, order, ', Iir::' + state if state else '')
    ps = params(fam, kind)
    A = ', '.join('double ' + x for x in ps)
    a = ', '.join(ps)
    s = basic(p, cls)
    s += 'void %s_n(%s_T *o, %s) { o->setupN(%s); }\n' % (p, p, A, a)
    s += 'void %s_nr(%s_T *o, int r, %s) { o->setupN(r, %s); }\n' % (p, p, A, a)
    s += 'void %s_s(%s_T *o, double fs, %s) { o->setup(fs, %s); }\n' % (p, p, A, a)
    s += 'void %s_sr(%s_T *o, int r, double fs, %s) { o->setup(r, fs, %s); }\n' % (p, p, A, a)
    s += cascade(p)
    return s


def cascade(p):
    s = 'int %s_stages(%s_T *o) { return o->getNumStages(); }\n' % (p, p)
    s += 'void %s_coef(%s_T *o, int i, double *r) { vp_biquad((*o)[i], r); }\n' % (p, p)
    s += 'const void *%s_at(%s_T *o, int i) { return &(*o)[i]; }\n' % (p, p)
    s += 'void %s_store(%s_T *o, int i, double *r) { vp_biquad(o->getCascadeStorage().stageArray[i], r); }\n' % (p, p)
    s += 'const void *%s_sptr(%s_T *o) { return o->getCascadeStorage().stageArray; }\n' % (p, p)
    s += 'int %s_smax(%s_T *o) { return o->getCascadeStorage().maxStages; }\n' % (p, p)
    s += 'void %s_resp(%s_T *o, double f, double *r) { std::complex<double> c = o->response(f); r[0] = c.real(); r[1] = c.imag(); }\n' % (p, p)
    s += 'void %s_pz(%s_T *o, int i, double *r) { vp_pair(o->getPoleZeros()[i], r); }\n' % (p, p)
    s += 'int %s_npz(%s_T *o) { return (int)o->getPoleZeros().size(); }\n' % (p, p)
    s += 'void %s_bpz(%s_T *o, int i, double *r) { const Iir::Cascade &c = *o; vp_pair(c.getPoleZeros()[i], r); }\n' % (p, p)
    return s + layout(p)


def layout(p):
    """apply a layout of n poles / a factor to a cascade"""
    return ('void %s_lay(%s_T *o, int n) { Iir::PoleZeroPair pairs[8]; Iir::LayoutBase l(16, pairs); '
            'for (int i = 0; i + 1 < n; i += 2) l.addPoleZeroConjugatePairs(std::complex<double>(0.5, 0.25), std::complex<double>(-1, 0.125)); '
            'if (n & 1) l.add(std::complex<double>(0.5), std::complex<double>(-1)); l.setNormal(0, 1); o->setLayout(l); }\n'
            'void %s_gain(%s_T *o, double g) { o->applyScale(g); }\n'
            'void %s_lay2(%s_T *o, const double *v, int n, long long modes, double w, double g) { Iir::PoleZeroPair pairs[24]; Iir::LayoutBase l(48, pairs); '
            'for (int i = 0; i < n; i++, modes >>= 2, v += 4) { '
            'if ((modes & 3) == 0) l.addPoleZeroConjugatePairs(std::complex<double>(v[0], v[1]), std::complex<double>(v[2], v[3])); '
            'else if ((modes & 3) == 1) l.add(Iir::ComplexPair(v[0], v[1]), Iir::ComplexPair(v[2], v[3])); '
            'else l.add(std::complex<double>(v[0]), std::complex<double>(v[2])); } l.setNormal(w, g); o->setLayout(l); }\n') % (p, p, p, p, p, p)


def rawcascade(p):
    s = 'typedef Iir::Cascade %s_T;\n' % p
    s += 'long %s_size() { return sizeof(%s_T); }\n' % (p, p)
    s += 'void %s_new(void *o) { new (o) %s_T; }\n' % (p, p)
    s += 'void %s_arr(%s_T *o, int n, Iir::Biquad *b) { o->setCascadeStorage(Iir::Cascade::Storage(n, b)); }\n' % (p, p)
    s += 'void %s_rearr(%s_T *o, int n, Iir::Biquad *b) { o->rebindCascadeStorage(Iir::Cascade::Storage(n, b)); }\n' % (p, p)
    s += 'int %s_stages(%s_T *o) { return o->getNumStages(); }\n' % (p, p)
    s += 'void %s_coef(%s_T *o, int i, double *r) { vp_biquad((*o)[i], r); }\n' % (p, p)
    s += 'const void *%s_at(%s_T *o, int i) { return &(*o)[i]; }\n' % (p, p)
    s += 'void %s_resp(%s_T *o, double f, double *r) { std::complex<double> c = o->response(f); r[0] = c.real(); r[1] = c.imag(); }\n' % (p, p)
    s += 'void %s_bpz(%s_T *o, int i, double *r) { const Iir::Cascade &c = *o; vp_pair(c.getPoleZeros()[i], r); }\n' % (p, p)
    s += 'int %s_npz(%s_T *o) { return (int)o->getPoleZeros().size(); }\n' % (p, p)
    s += 'void %s_sec(%s_T *, Iir::Biquad *b, int i, double *r) { vp_biquad(b[i], r); }\n' % (p, p)
    s += 'void %s_biq5(void *o) { new (o) Iir::Biquad[5]; }\n' % p
    s += 'void %s_biq24(void *o) { new (o) Iir::Biquad[24]; }\n' % p
    return s + layout(p)


def biq(p):
    s = 'void %s_coef(%s_T *o, int i, double *r) { vp_biquad(*o, r); }\n' % (p, p)
    s += 'void %s_resp(%s_T *o, double f, double *r) { std::complex<double> c = o->response(f); r[0] = c.real(); r[1] = c.imag(); }\n' % (p, p)
    s += 'void %s_pz(%s_T *o, int i, double *r) { vp_pair(o->getPoleZeros()[i], r); }\n' % (p, p)
    s += 'int %s_npz(%s_T *o) { return (int)o->getPoleZeros().size(); }\n' % (p, p)
    s += 'void %s_set(%s_T *o, double a0, double a1, double a2, double b0, double b1, double b2) { o->setCoefficients(a0, a1, a2, b0, b1, b2); }\n' % (p, p)
    s += 'void %s_scale(%s_T *o, double g) { o->applyScale(g); }\n' % (p, p)
    s += 'void %s_ident(%s_T *o) { o->setIdentity(); }\n' % (p, p)
    s += ('void %s_one(%s_T *o, double pr, double pi, double zr, double zi) { o->setOnePole(std::complex<double>(pr, pi), std::complex<double>(zr, zi)); }\n' % (p, p))
    c = ['p1', 'z1', 'p2', 'z2']
    s += 'void %s_two(%s_T *o, %s) { o->setTwoPole(%s); }\n' % (
        p, p, ', '.join('double %sr, double %si' % (x, x) for x in c), ', '.join('std::complex<double>(%sr, %si)' % (x, x) for x in c))
    s += 'void %s_pzp(%s_T *o, %s) { o->setPoleZeroPair(Iir::PoleZeroPair(%s)); }\n' % (
        p, p, ', '.join('double %sr, double %si' % (x, x) for x in c), ', '.join('std::complex<double>(%sr, %si)' % (x, x) for x in c))
    s += 'void %s_pz1(%s_T *o, double pr, double zr) { o->setPoleZeroPair(Iir::PoleZeroPair(std::complex<double>(pr, 0), std::complex<double>(zr, 0))); }\n' % (p, p)
    s += 'void %s_bps(%s_T *o, double *r) { Iir::BiquadPoleState b(*o); vp_pair(b, r); r[8] = b.gain; }\n' % (p, p)
    s += 'void %s_round(%s_T *o, %s_T *q) { Iir::BiquadPoleState b(*o); q->setPoleZeroForm(b); }\n' % (p, p, p)
    return s


def rbj(p, kind):
    ps = RBJK[kind]
    A = ', '.join('double ' + x for x in ps)
    a = ', '.join(ps)
    s = basic(p, 'Iir::RBJ::' + kind)
    s += 'void %s_n(%s_T *o, %s) { o->setupN(%s); }\n' % (p, p, A, a)
    s += 'void %s_s(%s_T *o, double fs, %s) { o->setup(fs, %s); }\n' % (p, p, A, a)
    s += biq(p)
    return s


def rbjdef(p, kind):
    ps = RBJK[kind][:-1]
    A = ', '.join('double ' + x for x in ps)
    a = ', '.join(ps)
    return ('void %s_nd(%s_T *o, %s) { o->setupN(%s); }\n' % (p, p, A, a)) + ('void %s_sd(%s_T *o, double fs, %s) { o->setup(fs, %s); }\n' % (p, p, A, a))


def sos(p, n, state='DirectFormII'):
    s = basic(p, 'Iir::Custom::SOSCascade<%d, Iir::%s>' % (n, state))
    s += 'void %s_sos(%s_T *o, const double *c) { o->setup(*(const double (*)[%d][6])c); }\n' % (p, p, n)
    s += 'void %s_newsos(void *o, const double *c) { new (o) %s_T(*(const double (*)[%d][6])c); }\n' % (p, p, n)
    s += 'void %s_store(%s_T *o, int i, double *r) { vp_biquad(o->getCascadeStorage().stageArray[i], r); }\n' % (p, p)
    s += 'int %s_smax(%s_T *o) { return o->getCascadeStorage().maxStages; }\n' % (p, p)
    return s


def biquad(p, cls='Iir::Biquad'):
    s = 'typedef %s %s_T;\n' % (cls, p)
    s += 'long %s_size() { return sizeof(%s_T); }\n' % (p, p)
    s += 'void %s_new(void *o) { new (o) %s_T; }\n' % (p, p)
    s += biq(p)
    return s


def onepole(p):
    return biquad(p, 'Iir::Custom::OnePole') + 'void %s_n(%s_T *o, double s, double p, double z) { o->setup(s, p, z); }\n' % (p, p)


def twopole(p):
    return biquad(p, 'Iir::Custom::TwoPole') + 'void %s_n(%s_T *o, double s, double pr, double pt, double zr, double zt) { o->setup(s, pr, pt, zr, zt); }\n' % (p, p)


def state(p, st):
    s = 'typedef Iir::%s %s_T;\n' % (st, p)
    s += 'long %s_size() { return sizeof(%s_T); }\n' % (p, p)
    s += 'void %s_new(void *o) { new (o) %s_T; }\n' % (p, p)
    s += 'void %s_reset(%s_T *o) { o->reset(); }\n' % (p, p)
    s += 'void %s_copy(void *o, const %s_T *s) { new (o) %s_T(*s); }\n' % (p, p, p)
    s += 'double %s_f(%s_T *o, const Iir::Biquad *b, double x) { return o->filter(x, *b); }\n' % (p, p)
    s += 'double %s_bf(%s_T *o, const Iir::Biquad *b, double x) { return b->filter(x, *o); }\n' % (p, p)
    return s


def unit(*parts):
    return HEAD + ''.join(parts) + TAIL
