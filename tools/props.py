"""writes properties.jsonl (the readable source of the property list)"""
import json, os
H = 'iir/'
PROPS = []


def P(pid, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    d = dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=[H + f for f in files], mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe:
        d['anchors']['observe_at'] = observe
    if state:
        d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    PROPS.append(d)


P('C01', 'Every delay-line structure computes the biquad difference equation',
  'Whichever of DirectFormI, DirectFormII and TransposedDirectFormII is used, and whether a single biquad is run through the delay line or through Biquad::filter, the n-th output for any coefficients and any input sequence is y[n] = b0 x[n] + b1 x[n-1] + b2 x[n-2] - a1 y[n-1] - a2 y[n-2] (coefficients normalised by a0, zero history before the first sample). The three structures therefore give the same output for the same input.',
  ['inputs', 'histories'], 'all coefficient values, all input sequences of any length, all three delay-line structures',
  'Tests compare a few impulse responses with numeric thresholds; they do not reach every tap at every position in the sequence or arbitrary coefficients.',
  ['State.h', 'Biquad.h'], [('filter recursion', 'iir/State.h: DirectFormI/II/TransposedDirectFormII::filter'), ('biquad dispatch', 'iir/Biquad.h: Biquad::filter')], ['return value of filter()'],
  [('delay registers', 'past inputs/outputs or partial sums', 'iir/State.h')])
P('C02', 'filter() is the series connection of the stages, for every sample type',
  'For every multi-stage filter the output for any input sequence equals passing it once, in order, through each of the getNumStages() second-order sections reported by operator[] (all sections for an imported cascade), no section skipped, repeated or sharing history with another. The samples may be double, float or integer: the recursion itself runs in double precision and only the result is converted to the sample type.',
  ['inputs', 'histories', 'configurations'], 'all input sequences, coefficient sets, requested orders, stage counts and sample types',
  'The tests check decay and a few response values for some orders; a wrong stage or precision path shows only for particular stage counts or sample types.',
  ['Cascade.h', 'State.h', 'Biquad.h', 'RBJ.h'], [('stage loop', 'iir/Cascade.h: CascadeStages::filter'), ('per-stage state', 'iir/Cascade.h: m_states')], ['return value of filter()'])
P('C03', 'reset() makes a filter behave like a freshly set-up one',
  'After reset() on any filter class, at any point of any history of samples, the filter answers every further input exactly as a newly constructed filter with the same coefficients does. A filter that has never seen a sample, or was just reset, answers zero input with zero, and reset() changes no coefficient.',
  ['histories', 'inputs'], 'every state reachable by filtering any samples, all filter classes, delay-line structures and stage counts',
  'TestState resets after one impulse for one order; a register left behind in some stage or structure needs particular histories to be heard.',
  ['State.h', 'Cascade.h', 'RBJ.h'], [('register clearing', 'iir/State.h: reset'), ('loop over the stages', 'iir/Cascade.h: CascadeStages::reset'), ('RBJ reset', 'iir/RBJ.h: RBJbase::reset')], ['outputs after reset()'])
P('C04', 'Setup leaves the delay line, filtering leaves the coefficients, queries nothing',
  'Changing the parameters with setup()/setupN() in the middle of a signal never touches the delay line (the filter continues from its current state), whether the call succeeds or throws. filter() never changes a coefficient or the stage count, and response(), getPoleZeros(), getNumStages(), operator[] and the coefficient getters have no effect on any later output or coefficient.',
  ['histories', 'inputs'], 'all interleavings of filter, setup and query calls on one object',
  'Tests set up once and then filter; they never interleave setup, queries and samples.',
  ['Cascade.cpp', 'Cascade.h', 'PoleFilter.h', 'RBJ.h', 'Biquad.cpp'], [('separation of coefficients and states', 'iir/Cascade.h: m_stages, m_states'), ('const queries', 'iir/Cascade.cpp: response, getPoleZeros')], ['outputs and getters after each call'])
P('C05', 'No allocation, locking, I/O, recursion or unbounded work in real-time calls',
  'Constructing, setting up, filtering, resetting, querying the response and copying a filter never allocate or free memory, lock, do I/O, use atomics or recurse (the only exception is building the exception object when parameters are rejected). filter() and reset() in addition always return normally, with a loop count that does not depend on sample values.',
  ['programs', 'inputs', 'configurations'], 'every path through the call graph below the public real-time entry points, all template instantiations',
  'No test measures allocation or calls; a container, a stream or a lazily initialised table on a rare branch passes every test.',
  ['Cascade.h', 'Layout.h', 'PoleFilter.h', 'State.h', 'Cascade.cpp'], [('fixed-size storage', 'iir/Cascade.h: m_stages[MaxStages]; iir/Layout.h: m_pairs'), ('inline sample path', 'iir/Cascade.h, iir/State.h')], ['call graph below the entry points'])
P('C06', 'Filters share no mutable state: independent instances never influence each other',
  'The library keeps no writable global, function-static or thread-local state, so any number of filter objects can be constructed, set up and run on different threads. No operation on one object changes the coefficients, delay line or later outputs of another separately constructed object.',
  ['schedules', 'histories'], 'all interleavings of operations on distinct objects on any threads',
  'The tests use one thread and mostly one object at a time; shared scratch data shows only under interleaving.',
  ['Cascade.cpp', 'PoleFilter.cpp', 'Butterworth.cpp', 'ChebyshevI.cpp', 'ChebyshevII.cpp', 'State.h'], [('per-object storage', 'iir/PoleFilter.h: m_analogStorage, m_digitalStorage'), ('absence of globals', 'iir/*.cpp')], ['writes to objects with static storage'])
P('C07', 'Copies are complete and independent; an assigned-to filter is ready to use',
  'A copy-constructed filter has the same coefficients and the same delay contents as the original, so it continues with the same outputs, and from then on nothing done to either object (setup, filter, reset, destruction) influences the other. An assigned-to RBJ filter or imported cascade takes over the source\'s coefficients; an assigned-to Butterworth or Chebyshev filter has a cleared delay line and is then set up and used independently of the source.',
  ['histories'], 'all interleavings of operations on original and copy, all filter classes',
  'assignment.cpp compares a copy with the original immediately after copying; aliasing shows only when the original is changed or destroyed later.',
  ['PoleFilter.h', 'Cascade.h', 'Layout.h', 'Cascade.cpp'], [('copy construction and assignment', 'iir/PoleFilter.h: PoleFilter(const PoleFilter&), operator='), ('storage binding', 'iir/Cascade.cpp: setCascadeStorage; iir/Layout.h: LayoutBase')], ['outputs and coefficients of both objects'])
P('C08', 'Imported second-order sections are used exactly as given, normalised by a0',
  'setup() or construction of a second-order-section cascade with rows {b0,b1,b2,a0,a1,a2} gives section i the transfer function of row i for every number of sections, in row order, with coefficients divided by a0, and reading the coefficients back gives the row again (up to that normalisation). Every row is imported, and a second setup() replaces the first completely.',
  ['inputs', 'configurations', 'histories'], 'all coefficient rows with a0 != 0, all section counts and delay-line structures, repeated setups',
  'custom.cpp imports one elliptic design with a0 = 1; ordering of a0 versus b0, rows beyond it and a0 != 1 are not exercised.',
  ['Custom.h', 'Biquad.cpp', 'Biquad.h'], [('row import', 'iir/Custom.h: SOSCascade::setup'), ('normalisation', 'iir/Biquad.cpp: Biquad::setCoefficients; iir/Biquad.h: getters')], ['coefficient getters', 'filter output'])
P('C09', 'response() is the transfer function of the filter that is actually run',
  'For every normalised frequency f in [0, 0.5], response(f) of a biquad or of a cascade equals H(e^{2 pi i f}) where H is the product over its active sections of (b0 + b1 z^-1 + b2 z^-2)/(1 + a1 z^-1 + a2 z^-2) with exactly the coefficients filter() uses; for a complex-conjugate pole pair the value is in particular not conjugated. An identity section and a cascade without stages respond with 1.',
  ['inputs', 'configurations'], 'all frequencies, coefficient values and stage counts',
  'Tests compare only magnitudes at a few points against loose thresholds.',
  ['Biquad.cpp', 'Cascade.cpp'], [('evaluation on the unit circle', 'iir/Biquad.cpp: Biquad::response; iir/Cascade.cpp: Cascade::response')], ['return value of response()'])
P('C10', 'Out-of-range queries are rejected, in-range ones never',
  'Cascade::response throws std::invalid_argument for every frequency outside [0, 0.5] (NaN included) and never for one inside. operator[] throws for every stage index below 0 or at or above getNumStages() and never for a valid index, for which it returns exactly that stage.',
  ['inputs', 'configurations'], 'all double frequencies, all int indices, all stage counts including none',
  'Only a few hand-picked bad arguments are tested.',
  ['Cascade.cpp', 'Cascade.h', 'Common.h'], [('range checks', 'iir/Cascade.cpp: Cascade::response; iir/Cascade.h: operator[]')], ['exception or return value'])
P('C11', 'All setup overloads of a class agree',
  'For every designer class (three families times seven types, and the ten RBJ types), setup(fs, ...) produces the same coefficients as setupN(...) with every frequency argument divided by the sampling rate and every other argument unchanged and in the same role, and setup(fs, ...) without an order argument equals the overload with the template order given explicitly. Both forms accept and reject the same parameters.',
  ['inputs', 'configurations'], 'all parameter values, all 31 classes, all orders',
  'Each test calls one overload with one parameter set; a swapped or unscaled argument in one of the many overloads goes unseen.',
  ['Butterworth.h', 'ChebyshevI.h', 'ChebyshevII.h', 'RBJ.h', 'RBJ.cpp', 'Butterworth.cpp', 'ChebyshevI.cpp', 'ChebyshevII.cpp'],
  [('setup overloads', 'iir/Butterworth.h, iir/ChebyshevI.h, iir/ChebyshevII.h, iir/RBJ.h'), ('base setup', 'iir/*.cpp: setup')], ['coefficient getters'])
P('C12', 'A requested order is honoured exactly or rejected',
  'setup/setupN with an explicit order between 1 and the template order gives the same filter (stage count, coefficients, outputs) as the class instantiated with that order. An order greater than the template order or less than 1 throws std::invalid_argument before any coefficient, stage count or storage is touched.',
  ['inputs', 'configurations'], 'all int order arguments, all template orders and classes, any later history',
  'Tests mostly use the template order; no test asks for an order outside the range or compares with the smaller class.',
  ['Butterworth.h', 'ChebyshevI.h', 'ChebyshevII.h', 'Butterworth.cpp', 'ChebyshevI.cpp', 'ChebyshevII.cpp', 'Cascade.cpp'], [('order guard', 'iir/Butterworth.h, iir/ChebyshevI.h, iir/ChebyshevII.h: setup(int, ...)'), ('stage count', 'iir/Cascade.cpp: setLayout')], ['exception', 'getNumStages() and coefficients'])
P('C13', 'Setup depends only on its arguments, not on earlier setups',
  'The coefficients and stage count after a successful setup()/setupN() are a function of that call\'s arguments alone: any sequence of earlier setups (other orders, other parameters, calls that threw half-way) leaves no trace. In particular the design cache never serves a prototype for different parameters.',
  ['histories', 'inputs'], 'all sequences of setup calls including rejected ones, all designer classes',
  'Tests set up once or repeat one order; cached prototypes go stale only for particular pairs of calls.',
  ['Butterworth.cpp', 'ChebyshevI.cpp', 'ChebyshevII.cpp', 'Layout.h', 'PoleFilter.h'], [('design cache keys', 'iir/Butterworth.cpp, iir/ChebyshevI.cpp, iir/ChebyshevII.cpp: AnalogLowPass::design'), ('layout reset', 'iir/Layout.h: LayoutBase::reset')], ['coefficients and stage count after the last setup'])
P('C14', 'Frequencies outside the valid range are rejected and leave the filter unchanged',
  'For every pole/zero based designer class (Butterworth, Chebyshev I and II, all seven types), setup()/setupN() with a cutoff or centre frequency that is negative, at or above one half of the sampling rate, infinite or NaN throws std::invalid_argument, and a frequency strictly between 0 and one half is never rejected together with admissible other parameters (a shelf gain of 0 dB included). After a rejected call the filter still has the coefficients, stage count, poles and zeros and response it had before.',
  ['inputs', 'histories'], 'all double arguments including infinities and NaN, all designer classes, orders and types',
  'TestBadParam tries a handful of values on some classes and never looks at the filter after the exception.',
  ['PoleFilter.cpp', 'Butterworth.cpp', 'ChebyshevI.cpp', 'ChebyshevII.cpp', 'Common.h'], [('frequency checks', 'iir/PoleFilter.cpp: LowPassTransform .. BandStopTransform'), ('throw helper', 'iir/Common.h: throw_invalid_argument')], ['exception', 'coefficients after the exception'])
P('C15', 'NaN never silently becomes a coefficient',
  'Whatever values are given, a parameter-setting call (every designer and RBJ setup, imported sections, OnePole/TwoPole, setCoefficients, applyScale) either throws or returns with no NaN among the (normalised) coefficients filter() uses. If it throws because a coefficient would be NaN, the exception is std::invalid_argument.',
  ['inputs'], 'all double arguments of the coefficient-setting interface including NaN, infinities and zero denominators',
  'Tests feed NaN to a few setups; other routes to NaN (0/0, inf-inf in scaling or normalisation) are not sampled.',
  ['Biquad.cpp', 'Cascade.cpp', 'PoleFilter.cpp', 'Custom.cpp', 'RBJ.cpp', 'Custom.h'], [('NaN checks', 'iir/Biquad.cpp: setCoefficients; iir/PoleFilter.cpp'), ('gain scaling', 'iir/Cascade.cpp: applyScale, setLayout')], ['coefficient getters after a call that returned'])
P('C16', 'RBJ filters implement the Audio EQ Cookbook formulas',
  'For every valid frequency, Q, gain and slope, each of the ten RBJ filter types has the transfer function of the Audio EQ Cookbook for its type (low/high-pass: unity gain at DC/Nyquist and gain Q at the centre; band-pass 1: skirt gain with peak Q; band-pass 2: unity peak; band-stop: zero at the centre and unity gain at DC and Nyquist; notch: zeros on the unit circle at the centre frequency and poles at the same angle with radius exp(-pi fc/Q); shelves and peak: the requested gain in dB on the boosted side and 0 dB on the other; all-pass: unity magnitude everywhere). The band types use their bandwidth argument as the Q of these formulas. Where an argument is left out, its documented default applies (Q = 1/sqrt 2, notch Q = 10, slope 1).',
  ['inputs'], 'all frequencies in (0, 0.5), Q > 0, gains, slopes and bandwidths',
  'Tests check decay of the impulse response and a few attenuation thresholds only.',
  ['RBJ.cpp', 'RBJ.h'], [('coefficient formulas', 'iir/RBJ.cpp: <type>::setupN')], ['coefficients', 'response()'])
P('C17', 'RBJ filters are stable for all valid parameters',
  'For every frequency strictly between 0 and 0.5, every positive Q, bandwidth or slope in (0, 1] and every finite gain, the poles of each RBJ filter lie strictly inside the unit circle (the notch for every positive quality below its documented maximum).',
  ['inputs'], 'all admissible parameters',
  'A handful of parameters are tried; stability must hold on the whole domain.',
  ['RBJ.cpp', 'RBJ.h'], [('denominator coefficients', 'iir/RBJ.cpp: <type>::setupN')], ['denominator coefficients'])
P('C18', 'Butterworth low/high/band-pass/band-stop have the Butterworth response',
  'For every order, cutoff, centre and width the filter\'s squared magnitude is exactly 1/(1 + w^(2n)), where w is the bilinear-prewarped frequency mapped to the prototype (low-pass, high-pass, band-pass and band-stop mapping): -3 dB at the cutoff or band edges, gain 1 at DC, Nyquist or centre as appropriate, maximally flat and monotonic. The order equals the requested order (doubled for the band types).',
  ['inputs', 'configurations'], 'all orders, cutoffs, centres and widths inside the valid range, all frequencies',
  'Tests check attenuation thresholds for a few orders and frequencies.',
  ['Butterworth.cpp', 'PoleFilter.cpp', 'Cascade.cpp', 'Layout.h', 'Biquad.cpp'], [('prototype', 'iir/Butterworth.cpp: AnalogLowPass::design'), ('transforms', 'iir/PoleFilter.cpp'), ('scaling', 'iir/Cascade.cpp: setLayout')], ['coefficients', 'response()'])
P('C19', 'Chebyshev I filters have the equiripple Chebyshev response',
  'For every order, cutoff, centre, width and ripple the squared magnitude of the low-, high-, band-pass and band-stop filters is exactly 1/(1 + e^2 T_n^2(w)) with e^2 = 10^(ripple/10) - 1 and w the prewarped, mapped frequency (so the gain at DC, Nyquist or centre is unity for odd and minus the ripple for even orders, and the passband never exceeds unity). At the cutoff or band edges the gain is exactly minus the ripple.',
  ['inputs', 'configurations'], 'all orders, cutoffs, centres, widths and ripples, all frequencies',
  'Tests check a few attenuation values.',
  ['ChebyshevI.cpp', 'PoleFilter.cpp', 'Cascade.cpp'], [('prototype', 'iir/ChebyshevI.cpp: AnalogLowPass::design'), ('transforms', 'iir/PoleFilter.cpp')], ['coefficients', 'response()'])
P('C20', 'Chebyshev II filters have the inverse Chebyshev response',
  'For every order, cutoff, centre, width and stop-band attenuation the squared magnitude of the low-, high-, band-pass and band-stop filters is that of the inverse Chebyshev filter: 1/(1 + 1/(e^2 T_n^2(1/w))) with e^2 = 1/(10^(stop/10) - 1). Hence gain 1 at DC (Nyquist, centre), attenuation of at least the requested stop-band dB everywhere beyond the cutoff, reached exactly at the cutoff or band edges.',
  ['inputs', 'configurations'], 'all orders, cutoffs, centres, widths and attenuations, all frequencies',
  'Tests check a few attenuation values.',
  ['ChebyshevII.cpp', 'PoleFilter.cpp', 'Cascade.cpp'], [('prototype', 'iir/ChebyshevII.cpp: AnalogLowPass::design'), ('transforms', 'iir/PoleFilter.cpp')], ['coefficients', 'response()'])
P('C21', 'Shelving filters reach the requested gain on one side and 0 dB on the other',
  'For every family, order, frequency, width and gain, LowShelf has the requested gain in dB at DC and 0 dB at Nyquist (for the Chebyshev families up to the ripple/stop-band parameter; with a parameter below |gain| the gain at DC is exact for odd and off by the parameter for even orders), HighShelf the mirror image, and BandShelf the requested gain inside the band and 0 dB at DC and Nyquist. With 0 dB gain a Butterworth shelf is the identity, and a shelf with gain -g is the inverse of the one with gain +g.',
  ['inputs', 'configurations'], 'all orders, frequencies, widths and gains',
  'Tests only check that a few shelf impulse responses decay.',
  ['Butterworth.cpp', 'ChebyshevI.cpp', 'ChebyshevII.cpp', 'PoleFilter.cpp', 'Cascade.cpp'], [('shelf prototypes', 'iir/*.cpp: AnalogLowShelf::design'), ('normalisation point', 'iir/PoleFilter.cpp, iir/Cascade.cpp: setLayout')], ['coefficients', 'response()'])
P('C22', 'Designed filters are stable for all valid parameters',
  'For every designer class, order and admissible parameter set, all poles of the resulting sections lie strictly inside the unit circle, because each analogue prototype pole lies strictly in the left half plane and each frequency transform maps the left half plane into the unit disc.',
  ['inputs', 'configurations'], 'all orders, types and admissible parameters',
  'Tests watch a few impulse responses decay.',
  ['Butterworth.cpp', 'ChebyshevI.cpp', 'ChebyshevII.cpp', 'PoleFilter.cpp'], [('prototype poles', 'iir/*.cpp: design'), ('transforms', 'iir/PoleFilter.cpp')], ['denominator coefficients'])
P('C23', 'Reported poles and zeros are those of the coefficients in use',
  'getPoleZeros() of a biquad or a cascade returns, one entry per section in order, the roots of that section\'s denominator and numerator, for complex-conjugate, real and single-pole sections (b0 not 0). Rebuilding a section from its reported poles, zeros and gain reproduces its coefficients.',
  ['inputs', 'configurations'], 'all coefficient sets, all section kinds',
  'No test checks reported poles or zeros against coefficients.',
  ['Biquad.cpp', 'Cascade.cpp', 'PoleFilter.h'], [('root computation', 'iir/Biquad.cpp: BiquadPoleState; Biquad::getPoleZeros'), ('cascade listing', 'iir/Cascade.cpp: Cascade::getPoleZeros')], ['getPoleZeros()'])
P('C24', 'No out-of-bounds access, uninitialised read or bad arithmetic in any public call',
  'For every template order, requested order, parameter set and call sequence of the public interface of the filter classes (Cascade on storage of the user included), the library reads and writes only inside its own objects, never reads an uninitialised value, never dereferences a null or dangling pointer and never overflows an integer, including before the first setup() and after a rejected one.',
  ['inputs', 'histories', 'configurations'], 'all orders (template and requested), parameters, call sequences',
  'Tests use moderate orders without sanitizers; overruns of the fixed-size pole/stage arrays need particular orders.',
  ['Layout.h', 'Cascade.h', 'Cascade.cpp', 'PoleFilter.cpp', 'PoleFilter.h'], [('storage sizes', 'iir/Layout.h: (MaxPoles+1)/2; iir/Cascade.h: MaxStages'), ('bounds checks', 'iir/Layout.h, iir/Cascade.h: operator[]')], ['memory accesses'])
P('C25', 'OnePole and TwoPole build the requested transfer function',
  'Custom::OnePole with scale s, pole p and zero z has the transfer function of the first-order section with exactly that pole and zero (as defined by setOnePole for real p and z), its numerator multiplied by s. Custom::TwoPole with scale s, pole radius and angle and zero radius and angle has the complex-conjugate pole and zero pairs of those polar coordinates, numerator multiplied by s.',
  ['inputs'], 'all scales, poles, zeros, radii and angles',
  'custom.cpp only checks that one response decays.',
  ['Custom.cpp', 'Custom.h', 'Biquad.cpp'], [('conversion', 'iir/Custom.cpp: OnePole::setup, TwoPole::setup'), ('applyScale', 'iir/Biquad.cpp')], ['coefficients'])
P('C26', 'Without exceptions, rejected arguments abort instead of continuing',
  'When the library is built with IIR1_NO_EXCEPTIONS, every argument that makes the normal build throw stops the program through abort() before any further effect, and no other argument does. Accepted arguments give the same coefficients and outputs in both builds.',
  ['configurations', 'inputs'], 'both build configurations, all arguments of the public interface',
  'The tests build only the configuration with exceptions.',
  ['Common.h', 'PoleFilter.cpp', 'Cascade.cpp', 'Biquad.cpp', 'Layout.h'], [('throw helper', 'iir/Common.h: throw_invalid_argument')], ['abort versus return'])
P('C27', 'Designs have the section count, order and section structure their order demands',
  'For every designer class and order n the filter has ceil(n/2) sections (n for band types), reported by getNumStages(); an odd order contributes exactly one first-order section (low/high/shelf types) and every other section is a genuine second-order section with real coefficients. getPoleZeros() has one entry per section and total order n (2n for the band types).',
  ['configurations', 'inputs'], 'all orders, classes and admissible parameters',
  'Tests never look at the stage count or the section structure.',
  ['Layout.h', 'Cascade.cpp', 'PoleFilter.cpp', 'PoleFilter.h'], [('pairing', 'iir/Layout.h: add, addPoleZeroConjugatePairs'), ('stage count', 'iir/Cascade.cpp: setLayout')], ['getNumStages(), coefficients, getPoleZeros()'])
P('C28', 'Explicit poles and zeros are converted correctly or rejected',
  'setOnePole, setTwoPole and setPoleZeroPair give a section whose denominator and numerator have exactly the given roots (with unit leading coefficient) when the poles, and likewise the zeros, are real or complex-conjugate pairs, and throw std::invalid_argument in every other case. A rejected call leaves the section as it was. setIdentity makes the section pass every sample unchanged and applyScale multiplies only the numerator.',
  ['inputs'], 'all complex arguments, conjugate or not',
  'No test calls these with arbitrary poles or with unpaired complex values.',
  ['Biquad.cpp', 'Biquad.h'], [('conversion', 'iir/Biquad.cpp: setOnePole, setTwoPole, setPoleZeroPair, setIdentity, applyScale')], ['coefficients', 'exception'])
P('C29', 'The compile-time interface keeps its documented shape and excludes misuse',
  'Every IIR designer template defaults to order 4 and DirectFormII and offers setup and setupN with and without a requested order, RBJ types accept their documented default arguments, filter() of a sample type returns that type, and response(), getPoleZeros(), getNumStages() and the coefficient getters work on const objects; all classes can be copied and assigned. Programs that hand SOSCascade an array of another size or type, change a section through operator[], build Cascade::Storage without an array or touch delay lines or sections directly do not compile. Iir.h and each header it includes compile alone and repeatedly in C++11 to C++20.',
  ['configurations'], 'all classes, topologies, sample types and language standards',
  'Tests instantiate a handful of combinations and cannot contain code that must not compile.',
  ['Butterworth.h', 'ChebyshevI.h', 'ChebyshevII.h', 'RBJ.h', 'Custom.h', 'Cascade.h', 'Biquad.h', 'PoleFilter.h', 'State.h'], [('default arguments', 'iir/Common.h: DEFAULT_FILTER_ORDER; iir/State.h: DEFAULT_STATE'), ('array reference', 'iir/Custom.h: SOSCascade'), ('read access', 'iir/Cascade.h: operator[], Storage')], ['compiler verdict'])
P('C30', 'A layout given to a cascade becomes exactly its sections, normalised',
  'Cascade::setLayout with any sequence of conjugate, real or single pole/zero pairs that fits gives one section per pair with exactly those roots, |H| equal to the normalisation gain at the normalisation frequency, identity sections in the rest of the storage and getNumStages() equal to the number of pairs, whatever the storage held before. A layout with more sections than the storage is rejected with std::invalid_argument and changes nothing. applyScale(g) multiplies the response by g at every frequency and does nothing on an empty cascade.',
  ['inputs', 'histories', 'configurations'], 'all pole/zero sets, storage sizes, earlier contents, normalisation points',
  'No test calls setLayout or applyScale of a cascade.',
  ['Cascade.cpp', 'Cascade.h', 'Layout.h', 'Biquad.cpp'], [('conversion and normalisation', 'iir/Cascade.cpp: setLayout, applyScale')], ['coefficients', 'getNumStages()', 'response()', 'exception'])
P('C31', 'Compiler settings of the application do not change layout or behaviour',
  'Whether the application (or the library) is compiled with assertions on or off, with or without optimisation and as C++11, C++17 or C++20, every class has the same size and member layout, so that it can be linked against a library built otherwise, and every call has the same acceptance, results and effects; no assertion can stop the program.',
  ['configurations', 'inputs'], 'all build settings, classes and arguments',
  'Tests are built in one configuration only, the same for library and test.',
  ['Cascade.h', 'Biquad.h', 'State.h', 'Layout.h', 'Types.h', 'PoleFilter.h', 'RBJ.h', 'Common.h', 'MathSupplement.h'], [('class definitions', 'iir/*.h'), ('inline and template code compiled by the application', 'iir/*.h')], ['object size', 'coefficients, outputs, exception or abort'])
P('C32', 'Double precision results stay close to the exact ones',
  'Coefficients, responses and outputs computed in double precision differ from the values of exact arithmetic by a small relative amount (1e-9 for designs up to order 8 with cutoffs between 0.001 and 0.499), so that the exact statements about magnitude, stability and recursion carry over to the running filter.',
  ['inputs', 'configurations'], 'all parameters and signals',
  'Rounding errors depend on all inputs; tests look at a few.',
  ['Butterworth.cpp', 'ChebyshevI.cpp', 'ChebyshevII.cpp', 'PoleFilter.cpp', 'Biquad.cpp', 'RBJ.cpp', 'State.h'], [('arithmetic', 'iir/*.cpp, iir/State.h')], ['coefficients, outputs'])

if __name__ == '__main__':
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p) + '\n')
