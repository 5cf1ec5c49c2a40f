#!/usr/bin/env python3
"""Single source of the property list: writes /verif/properties.jsonl and /verif/MANIFEST.json.

Only properties with a registered check (CHECKS in tools/registry.py) are listed in the
manifest's "checks"; the others must carry a reason in NOT_APPLICABLE.
"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)

P = []

def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

K = "include/dsp/kalman.hpp"; MX = "include/num/matrix.hpp"; FX = "include/num/fixed-point.hpp"
BQ = "include/dsp/biquad.hpp"; BC = "include/dsp/biquad-cascade.hpp"; BD = "include/dsp/biquad-design.hpp"
FD = "include/dsp/filter-design.hpp"; FI = "include/dsp/filter.hpp"; OP = "include/dsp/onepole.hpp"
OD = "include/dsp/onepole-design.hpp"; CH = "include/dsp/chebyshev-design.hpp"
RG = "include/mcu/register.hpp"; AT = "include/mcu/atmega328.hpp"; RA = "include/core/range.hpp"
STD = ["include/std/%s.hpp" % n for n in "algorithm limits utility type_traits cstdint complex".split()]

# ---------------------------------------------------------------- Kalman estimator
prop("C01", "Each Kalman update performs the textbook predict-correct step",
 "For any valid model (state dimension 2, one or two measurements, any number of controls, symmetric positive semi-definite covariances, invertible innovation covariance) and any control and measurement sequence, after every update the state estimate, Kalman gain and error covariance equal those of the standard discrete Kalman recursion x=Ax+Bu, P=APA'+Q, K=PH'(HPH'+R)^-1, x+=K(z-Hx), P=(I-KH)P, to rounding accuracy of the number type. This includes degenerate models (zero noise, zero gain, unobserved state, zero control).",
 ["inputs", "histories"], "every model in every supported dimension, every initial estimate, every control/measurement history of any length, float and double",
 "No unit test exercises the estimator at all; only a demo prints one model with one measurement. The claim is over all models, dimensions and histories.",
 [K, MX], [("predict and correct equations", "include/dsp/kalman.hpp:kalman::update"), ("matrix operators the equations are written in", "include/num/matrix.hpp")],
 ["system_state()", "kalman_gain()", "estimation_error_covariance() after each update()"],
 [dict(name="xhat, P, K", meaning="estimate, its covariance, gain", where="include/dsp/kalman.hpp")])

prop("C02", "The Kalman estimate is the optimal (least-squares) estimate of its history",
 "After any number of updates, the state estimate and error covariance equal the mean and covariance of the Gaussian posterior (the weighted least-squares solution) computed in batch from the prior, all controls and all measurements seen so far. The covariance and gain never depend on the measured or control values, and the estimate depends on them linearly.",
 ["inputs", "histories"], "every model and history of controls and measurements in each supported dimension",
 "Optimality is a statement about whole histories against an independent estimator; the existing tests run no history.",
 [K, MX], [("recursive estimator", "include/dsp/kalman.hpp:kalman::update")], ["system_state()", "estimation_error_covariance()", "kalman_gain()"])

prop("C03", "Kalman error covariance stays a covariance and only shrinks on measurement",
 "After every update the reported error covariance is symmetric and positive semi-definite (to rounding) and is no larger, in the positive semi-definite order, than the predicted covariance before the measurement, nor, for a directly measured state, than that measurement's noise. With an observable model and constant noise it stays bounded and converges however long the filter runs.",
 ["inputs", "histories"], "every valid model, any number of updates (tens of thousands in the checks), float and double",
 "Loss of symmetry, definiteness or boundedness shows only after long or ill-conditioned histories, none of which is tested.",
 [K, MX], [("covariance update", "include/dsp/kalman.hpp:kalman::update")], ["estimation_error_covariance() after each update()"])

prop("C04", "A Kalman filter owns its state; observers are pure and always defined",
 "A newly built estimator reports exactly the initial estimate and covariance it was given, time zero and a zero gain; elapsed time equals the number of updates times the time step. Observers never change anything or read uninitialised or out-of-range memory, and estimators (including copies) are independent of each other and of the objects they were built from.",
 ["inputs", "histories"], "every interleaving of construction, copying, updates and observer calls on any number of estimators",
 "Undefined values and hidden sharing appear only for particular call orders (observing before the first update, copying mid-run, interleaving filters); tests cover none of them.",
 [K], [("by-value members, constructor initialisation", "include/dsp/kalman.hpp:kalman")], ["all observers before, between and after updates"])

prop("C05", "A fixed-point Kalman filter tracks the floating-point filter",
 "For well-scaled models whose intermediate values stay inside the fixed-point range, an estimator instantiated with a fixed-point number type follows the double-precision estimator within an error proportional to the fixed-point resolution, at every step of every history. No operation it performs is undefined.",
 ["inputs", "histories"], "well-scaled models and histories, 32-bit fixed-point formats with different fraction widths",
 "Truncation and overflow errors accumulate over a history and depend on the values; tests only check single fixed-point operations.",
 [K, FX, MX], [("scaled integer arithmetic in the estimator", "include/num/fixed-point.hpp:operator*=,operator/=")], ["estimator observers for both number types"])

# ---------------------------------------------------------------- fixed point
prop("C06", "Fixed-point numbers convert to and from other number types faithfully",
 "Every representable value survives fixed-point to double and back unchanged and the observed double is exactly the stored count times the resolution; constructing from an in-range float or double value yields the nearest representable value, and constructing from an in-range integer is exact. Observing as an integer type truncates toward zero, and default construction, limits and raw access agree with this same scale for every storage width and fraction width.",
 ["inputs"], "every representable value and every in-range source value, for 8-, 16- and 32-bit storage and every integer/fraction split",
 "Tests sample a few literals in one or two formats; rounding and sign handling must hold for every value and every format.",
 [FX, "include/std/limits.hpp"], [("rounding constructors, scaling observers", "include/num/fixed-point.hpp:fixed_point"), ("raw access", "include/num/fixed-point.hpp:to_rep,from_rep,from_value")], ["constructors", "as<>()", "as_double()", "underlying_value()", "min()/max()"])

prop("C07", "Fixed-point arithmetic is exact up to its stated rounding and never undefined",
 "For operands whose result is representable, sum, difference and negation are exact, a product equals the exact product rounded down to the resolution, and a quotient equals the exact quotient truncated toward zero, for every sign combination and every format. Compound assignment gives the same result as the binary operator, and no such operation executes undefined behaviour.",
 ["inputs"], "all operand pairs with representable result; exhaustively for 8-bit storage, sampled with extremes for 16 and 32 bit, every fraction width",
 "Tests check one positive example per operator; signs, extremes and every fraction width are outside them, as is undefined behaviour that happens to give the right bits.",
 [FX], [("widened multiply and divide", "include/num/fixed-point.hpp:operator*=,operator/=")], ["operators and their compound forms, results via underlying_value()"])

prop("C08", "Fixed-point comparison is the numeric total order",
 "For any two values of one format, each of the six comparison operators gives exactly what comparing their numeric values gives, also against mixed integer or floating-point operands that are representable. The reported minimum and maximum bound every value, and ordering is consistent with subtraction where that does not overflow.",
 ["inputs"], "all pairs of values (exhaustive for 8-bit storage), every format, mixed operand types",
 "Tests compare a handful of pairs.",
 [FX], [("comparison operators", "include/num/fixed-point.hpp")], ["comparison operators", "min()", "max()"])

# ---------------------------------------------------------------- matrix
prop("C09", "Matrix and vector arithmetic equals its mathematical definition",
 "For every supported shape, element type and value, matrix, row-vector, column-vector, 1x1 and scalar sums, differences and products return the mathematically defined result with the mathematically defined shape, leaving their operands unchanged. Results are also right when an operand is assigned the result or appears twice.",
 ["inputs", "programs"], "all values and all operand shapes the operators accept, including non-square shapes, 1x1 and repeated operands",
 "Tests check one small example per operator, mostly 2x2; other shapes select other overloads and other loop bounds.",
 [MX], [("operator overloads selected by shape", "include/num/matrix.hpp:operator+,operator-,operator*")], ["operator results, element by element"])

prop("C10", "Matrix storage is row-major, complete and never accessed out of bounds",
 "Element access by (row,column), by flat index, by iteration and through const or mutable objects refers to the same row-major elements; construction from a value, a list (short lists zero-fill), a copy or an assignment sets every element. No operation on valid indices and accepted shapes reads or writes outside its matrices or uses an uninitialised element.",
 ["inputs", "programs"], "all shapes up to 5x5 and element types, every access path, every operator over every accepted shape",
 "A read or write beyond the storage usually leaves test results intact; only instrumented runs over all shapes reveal it.",
 [MX, "include/std/algorithm.hpp", "include/std/utility.hpp"], [("flat array storage and index computation", "include/num/matrix.hpp:matrix")], ["element accessors, iterators, sanitizer reports"])

prop("C11", "Matrix inverse, transpose and identity obey their algebraic laws",
 "For every scalar and 2x2 matrix with a well-conditioned inverse, a matrix times its inverse is the identity to rounding, a non-zero scalar times its inverse is one and zero inverts to zero; inverting leaves the argument unchanged. Transposing swaps indices, is its own inverse and reverses products, and the identity of any size is neutral for multiplication.",
 ["inputs"], "all values; row and column vectors of any length; 2x2 matrices symmetric and not; identities of size 1 to 6",
 "Tests check one inverse and a few transposes; the inverse test even pins a wrong value for a non-symmetric matrix.",
 [MX], [("closed-form inverse, transpose", "include/num/matrix.hpp:inverted,transposed,eye")], ["inverted()", "transposed()", "eye()"])

# ---------------------------------------------------------------- biquad
prop("C12", "A biquad filter computes its difference equation in every form",
 "For any coefficients and input signal, the outputs of the default, direct-form-II and transposed direct-form-II steps, starting from rest, all equal y[n]=b0x[n]+b1x[n-1]+b2x[n-2]-a1y[n-1]-a2y[n-2] to rounding, sample by sample. The default step keeps state compatible with direct form II, and fixed-point instantiations agree within their resolution.",
 ["inputs", "histories"], "all coefficient sets (stable ones for long signals), all input signals, float, double and fixed point",
 "Tests feed one impulse to a few coefficient sets; equality of realisations is a property of all signals.",
 [BQ], [("direct form II and transposed recursions", "include/dsp/biquad.hpp:step_df2,step_df2_transposed")], ["step(), step_df2(), step_df2_transposed() return values", "state()"],
 [dict(name="w", meaning="two delay elements", where="include/dsp/biquad.hpp")])

prop("C13", "Biquad filters are linear, time-invariant, isolated and fully resettable",
 "Reset returns a filter to rest: from then on it answers exactly as a new filter with the same coefficients, whatever it processed before, and reset changes no coefficient. Filters are linear and time-invariant, copies and swapped filters continue independently with exactly the coefficients and state they took over, and observers change nothing.",
 ["inputs", "histories"], "all histories of step, reset, copy, swap and observation on several filters",
 "Residual or shared state shows only in particular histories; tests reset and swap once.",
 [BQ], [("state handling", "include/dsp/biquad.hpp:reset,swap")], ["outputs after each history, state(), coeff_a(), coeff_b()"])

prop("C14", "Biquad poles, zeros and stability verdict match the transfer function",
 "Reported poles and zeros are the two roots of the denominator and numerator polynomials, real, repeated or complex, and a filter is reported stable exactly when both pole magnitudes are at most one (margins beyond rounding). Building a filter from zeros, poles and gain gives the filter whose transfer function has them.",
 ["inputs"], "all coefficient sets with non-zero leading numerator coefficient, real, repeated and complex root pairs, inside, on and outside the unit circle",
 "Tests check a few root sets; sign and conjugate handling differ per root configuration.",
 [BQ, "include/std/complex.hpp"], [("quadratic solver", "include/dsp/biquad.hpp:solve"), ("zero/pole/gain expansion", "include/dsp/biquad.hpp:to_coeff")], ["poles()", "zeros()", "is_stable()", "coefficients after construction", "solve()"])

prop("C15", "The reported frequency response is what the filter does to a sinusoid",
 "At every normalised frequency the complex response of a stable biquad equals the discrete-time Fourier transform of the impulse response it actually produces, in magnitude and phase, and equals the amplitude ratio of its steady-state sinusoidal output. Computing a response leaves the filter unchanged.",
 ["inputs"], "all stable coefficient sets and all frequencies including 0 and one half",
 "Tests compare the magnitude at a few frequencies for one design.",
 [BQ], [("evaluation on the unit circle", "include/dsp/biquad.hpp:response")], ["response()", "impulse response through step()"])

prop("C16", "A filter cascade is an exact bounded sequence of its sections",
 "After any valid sequence of append, insert, remove, replace and clear, a cascade contains exactly the sections a plain list would, in order, each with the coefficients and state it was given; replace returns the previous section. Size and capacity are reported accordingly, iteration visits each section once, no memory outside the cascade is touched, and exceeding capacity or addressing a missing section is trapped by an assertion rather than corrupting memory.",
 ["histories"], "all edit histories up to capacity, all capacities and positions",
 "Tests do one edit at a time on two or three sections; shifting errors need particular positions, capacities and histories.",
 [BC], [("array plus insertion point, shifting loops", "include/dsp/biquad-cascade.hpp:BiQuadCascadeT")], ["size(), reserved(), coeff_a(i), coeff_b(i), state(i), iteration, replace() result"],
 [dict(name="next", meaning="number of sections in use", where="include/dsp/biquad-cascade.hpp")])

prop("C17", "A cascade filters like its sections in series",
 "For any sections and signal, stepping a cascade in any of its three step forms equals feeding the sample through each section in order; an empty cascade passes the sample through. The cascade's frequency response is the product of the section responses, it is stable exactly when every section is, and resetting it resets every section and nothing else.",
 ["inputs", "histories"], "all section sets up to capacity and all signals",
 "Tests step two fixed sections; order, omission or double application show only for distinct sections and longer signals.",
 [BC, BQ], [("free functions folding over sections", "include/dsp/biquad-cascade.hpp:step,response,is_stable,reset")], ["step results", "response()", "is_stable()", "state(i)"])

# ---------------------------------------------------------------- designs
prop("C18", "Biquad low/high/band-pass and band-stop designs meet their specification",
 "For any sampling rate, frequency strictly between 0 and half of it and positive quality factor, the designed filter is stable and its response is that of the bilinear-transformed second-order prototype: low-pass has unit gain at DC, zero at Nyquist and gain Q at the design frequency; high-pass the mirror image; band-pass unit gain at the centre and zero at both ends; band-stop zero at the centre and unit gain at both ends. Bandwidths follow Q, the result type is at least float whatever the argument types, and the design header works when included alone.",
 ["inputs"], "all frequencies, rates and quality factors, mixed integer and floating-point argument types",
 "No test checks a designed response; one example prints one.",
 [BD, FD], [("bilinear design formulas", "include/dsp/biquad-design.hpp:biquad_design_method"), ("frequency prewarping", "include/dsp/filter-design.hpp:prewarp")], ["biquad_design()", "make_biquad()", "response of the built filter"])

prop("C19", "Shelving and peaking designs deliver the requested gain in decibel",
 "For any gain in dB (boost or cut), frequency below Nyquist and Q, a low shelf has that gain at DC and 0 dB at Nyquist, a high shelf 0 dB at DC and that gain at Nyquist, and a peaking equaliser that gain at its centre and 0 dB at both ends; between these the magnitude is monotonic for shelves, whose power gain at the design frequency is the arithmetic (boost) or harmonic (cut) mean of those at both ends. The designs are stable, and a cut is the exact inverse of the boost of the same size.",
 ["inputs"], "all gains positive, negative and zero, all frequencies, rates and Q",
 "No test checks these designs.",
 [BD, FD], [("shelf and peak formulas", "include/dsp/biquad-design.hpp"), ("dB to amplitude factor", "include/dsp/filter-design.hpp:dbV_factor")], ["biquad_design() and the response of the built filter"])

prop("C20", "Ready-made low-pass and high-pass filters filter as designed",
 "A low-pass or high-pass filter object built from cut-off, sampling rate and Q produces, for every input signal, the output of the corresponding second-order biquad design starting from rest. Objects and copies are independent, and outputs stay bounded for bounded input.",
 ["inputs", "histories"], "all cut-offs, rates, Q and input signals, float and double",
 "No test instantiates these classes.",
 [FI, BD, BQ], [("design in the constructor, one biquad step per sample", "include/dsp/filter.hpp:Lpf,Hpf")], ["operator() output sequence"])

prop("C21", "Chebyshev type I designs meet their pass-band and stop-band specification",
 "For any valid low- or high-pass specification (rate, band edges in the right order below Nyquist, attenuations), the designed cascade is stable, its attenuation is at most the pass-band ripple throughout the pass band and at least the stop-band attenuation throughout the stop band, with peak gain 0 dB and equiripple pass band. The order is the smallest Chebyshev order satisfying the specification, and the cascade built from the result contains exactly its sections.",
 ["inputs"], "all valid specifications, odd and even orders, low- and high-pass, float and double",
 "No test runs a design; the example prints numbers nobody checks.",
 [CH, BC], [("analytic pole placement and bilinear transform", "include/dsp/chebyshev-design.hpp:chebyshev1_lp_hp_impl"), ("cascade assembly", "include/dsp/chebyshev-design.hpp:make_biquad_cascade")], ["response of the built cascade over a frequency grid", "reported order"])

prop("C22", "Chebyshev type II designs meet their pass-band and stop-band specification",
 "For any valid low- or high-pass specification, the inverse-Chebyshev design is stable, has gain 1 at the far pass-band end (DC or Nyquist), attenuates at most the pass-band ripple throughout the pass band and at least the stop-band attenuation throughout the stop band, and is monotonic in the pass band. The order is the smallest satisfying the specification and the reported 3 dB frequency is where the magnitude is 3 dB down.",
 ["inputs"], "all valid specifications, odd and even orders, low- and high-pass, float and double",
 "No test runs a design.",
 [CH, BC], [("analytic pole/zero placement", "include/dsp/chebyshev-design.hpp:chebyshev2_lp_hp_impl")], ["response of the built cascade", "reported order and 3 dB frequency"])

prop("C23", "A one-pole filter computes its recursion and reports its pole and response",
 "For any coefficients and signal a one-pole filter outputs y[n]=b0x[n]-a1y[n-1] from rest, reset returns it exactly to rest, and copies and swapped filters carry coefficients and state exactly. Its reported pole is the root of its denominator, and its frequency response equals the transform of its impulse response.",
 ["inputs", "histories"], "all coefficients and signals, all step/reset/copy/swap histories, float and double",
 "No test includes the one-pole filter.",
 [OP], [("recursion, reset, swap, response, pole", "include/dsp/onepole.hpp:OnePoleT")], ["step()", "state()", "poles()", "response()"])

prop("C24", "One-pole designs are stable with unit pass-band gain at the requested cut-off",
 "For any rate and cut-off between 0 and half the rate, the low-pass design has gain exactly one at DC and decreases monotonically to Nyquist, the high-pass design mirrors it, both are stable, and the pole lies at exp(-2 pi f/fs) (low-pass) or minus exp(-2 pi (0.5-f/fs)) (high-pass) as in the cited design, so that low cut-offs are 3 dB down at the requested frequency.",
 ["inputs"], "all cut-offs and rates, mixed argument types",
 "No test includes the design.",
 [OD, FD], [("exponential pole mapping", "include/dsp/onepole-design.hpp:onepole_design_method")], ["onepole_design()", "make_onepole()", "response of the built filter"])

prop("C25", "Decibel conversions and prewarping are mutually consistent",
 "Power and voltage level ratios are 10 log10 and 20 log10 of the ratio, their factor functions return the power or voltage ratio for the absolute level, so factor and level are inverse to each other, and levels of products add. Prewarping is the tangent of pi f/fs, increasing, for all frequencies below Nyquist and for integer arguments too.",
 ["inputs"], "all positive ratios, all levels, all frequencies and rates, integer and floating-point argument types",
 "No test calls these functions.",
 [FD, "include/core/shims.hpp", "include/num/constants.hpp"], [("level and factor functions", "include/dsp/filter-design.hpp")], ["dbP, dbV, dbP_factor, dbV_factor, prewarp"])

# ---------------------------------------------------------------- core
prop("C26", "Ranges enumerate exactly the promised arithmetic sequence",
 "Iterating a range visits first, first+step, first+2*step, ... strictly below the end and nothing else, for every bound up to the largest value of the type, positive step and (mixed) number type (as far as the type can represent the values), without accumulating rounding; an empty interval visits nothing and an unbounded range continues for as long as it is read. Index ranges of arrays, containers and lists visit 0..size-1 in order, and ranges can be iterated repeatedly with the same result.",
 ["inputs", "programs"], "all bounds and positive steps whose values are representable, integer and floating-point types and mixes, arrays and containers of any size",
 "Tests iterate a few small ranges.",
 [RA], [("stepping iterators with multiplied step", "include/core/range.hpp:range_proxy,step_range_proxy,infinite_range_proxy")], ["values and number of iterations"])

prop("C27", "Printing shows exactly the numbers held, and text helpers do what they say",
 "Streaming a fixed-point number, matrix, vector, coefficient set, filter or cascade prints its actual element values in storage order in its documented layout, honouring the stream's precision and leaving the object unchanged; a stability statement printed for a filter is true. Text helpers return a line of the requested length and character, replace exactly the first occurrence, and convert values like a static cast; these headers work when included alone.",
 ["inputs"], "all values, shapes and stream precisions; all texts",
 "Tests print one object of each kind.",
 ["include/num/matrix-io.hpp", "include/num/fixed-point-io.hpp", "include/dsp/biquad-io.hpp", "include/dsp/biquad-cascade-io.hpp", "include/dsp/onepole-io.hpp", "include/dsp/chebyshev-design-io.hpp", "include/core/vector-io.hpp", "include/core/text.hpp", "include/core/shims.hpp"], [("stream operators", "include/*/*-io.hpp"), ("text helpers", "include/core/text.hpp")], ["captured stream output", "returned text"])

prop("C28", "The bundled standard-library replacements behave like the standard library",
 "The library's own copy, fill, equal, swap, move, initializer lists, limits, type traits and complex numbers (construction, assignment, components), including the variants only compiled for the microcontroller, give the results the C++ standard specifies for every argument they accept. The microcontroller variants classify the fixed-width integer and floating-point types exactly as the desktop ones do, and each replacement header works when it is the only one included.",
 ["inputs", "configurations"], "all element values, lengths and types, desktop and microcontroller configurations",
 "Tests check one example per function, in the desktop configuration only; the microcontroller branches are never executed.",
 STD, [("replacement headers", "include/std/*.hpp")], ["results compared with std::, on host and on the emulated microcontroller"])

# ---------------------------------------------------------------- MCU
prop("C29", "Accessing a register field affects that field only",
 "Reading, writing, setting, clearing or toggling a bit or multi-bit field of a register changes exactly that field to exactly that value, for every previous register content, and no other register; a read returns the field right-aligned and changes nothing. This holds for fields of every position and width in 8-bit registers and for whole 8- and 16-bit registers.",
 ["inputs", "configurations"], "every field position and width, every prior content and every value",
 "No test executes register code at all; it needs the target processor.",
 [RG], [("mask-and-merge field access", "include/mcu/register.hpp:bitfield_t,rw_t,w_t,r_t")], ["memory and I/O access log of compiled firmware on an emulated ATmega328P"])

prop("C30", "Combined lazy writes reach the register as one single correct write",
 "Field settings combined with the comma operator are applied together by exactly one write to their register, which holds every combined value and keeps every field not mentioned; a single setting likewise takes effect exactly once at the end of its statement. The value written never depends on the order in which the settings are combined.",
 ["inputs", "programs"], "all combinations and orders of fields of a register, all values and prior contents",
 "No test executes register code; duplicated or lost writes are invisible without an access log.",
 [RG, AT], [("deferred write proxies combined by operator,", "include/mcu/register.hpp:write_proxy")], ["order, number and values of register writes in the access log"])

prop("C31", "Register and bit definitions match the ATmega328P",
 "Every register and field the library defines for the ATmega328P accesses the address and bit positions the device specification gives for the peripheral register it is named after. This holds for reading and for writing alike.",
 ["programs"], "every register and field definition in the device header",
 "The definitions are never executed by a test, and compile whatever address they hold.",
 [AT], [("address and bit constants", "include/mcu/atmega328.hpp")], ["addresses and bits touched by compiled firmware versus the vendor header of avr-libc"])

prop("C32", "Every peripheral setting reads back as set",
 "For every configuration setting of the timers, PWM outputs, ADC, analog comparator, TWI, EEPROM and external interrupts, applying any of its values and then asking for the current value returns that value, the hardware fields then hold that value's documented code, and unrelated settings keep theirs. Only the register fields that belong to the setting are changed.",
 ["inputs", "histories"], "every setting, every enumerated value, every prior register state",
 "The setting functions are compiled into examples at most; their results are never observed.",
 [AT, RG], [("set()/current() pairs", "include/mcu/atmega328.hpp")], ["return values and register access log on the emulated device"])

prop("C33", "Clearing an interrupt flag clears that flag and only that flag",
 "Clearing a peripheral interrupt flag resets exactly the requested flag, for every combination of pending flags and configuration bits: no other pending flag is lost and no configuration bit of the same register changes. Reading a flag reports it truthfully and leaves it pending.",
 ["inputs", "histories"], "every flag, every combination of other pending flags and control bits",
 "Write-one-to-clear side effects exist only in the hardware; no test models them.",
 [AT, RG], [("write-one-to-clear access", "include/mcu/register.hpp:clearbit_w1_t,rc_w1_t")], ["flag registers of the emulated device before and after"])

prop("C34", "Atomic access never yields or leaves a torn value under interrupts",
 "Reading or writing a multi-byte variable or 16-bit register through the atomic access functions yields or stores a consistent value even when an interrupt handler that accesses the same variable runs at any point of the surrounding code, and interrupts are enabled again afterwards. Single-byte accesses do not disable interrupts.",
 ["schedules"], "an interrupt at every instruction boundary of the access, 2- and 4-byte values, variables and timer registers",
 "Interrupt timing cannot be controlled by the existing tests, which do not run on the device.",
 [RG, AT], [("interrupt guard around multi-byte accesses", "include/mcu/register.hpp:atomic,scoped_interrupt_guard")], ["values seen by main program and handler for an interrupt injected at each instruction"])

prop("C35", "Interrupt handlers using the status guard are invisible to interrupted code",
 "Saving and restoring the status register with the scoped guard leaves every status bit as it was at the guard's construction, whatever is done in between and however the scope is left. Interrupting a computation at any instruction with a handler written this way does not change the computation's result.",
 ["schedules", "inputs"], "every prior status value, every exit path, an interrupt at every instruction",
 "Needs control of interrupt timing on the device.",
 [AT], [("scoped save and restore", "include/mcu/atmega328.hpp:core::scoped_sreg")], ["status register and results on the emulated device"])

prop("C36", "A TWI master write sends start, address, data, stop, and reports every failure",
 "Writing a byte over TWI initiates a start, transmits the given address byte, then the given data byte, then a stop, each only after the hardware finished the previous step with the expected status, and returns success exactly when all steps succeeded. On any other status it reports an error and sends nothing more; initialisation sets the requested bit rate and prescaler, enables the interface, enables the pull-ups of both bus pins, and leaves no start or stop condition requested, also when one was pending before.",
 ["inputs", "fault_sequences"], "all address and data bytes, all hardware status sequences and latencies",
 "No test runs the bus code; it needs a responding peripheral.",
 [AT], [("polled master transmitter", "include/mcu/atmega328.hpp:twi::sync")], ["bus events of an emulated TWI peripheral with fault injection"])

prop("C37", "GPIO, LED and PWM helpers drive exactly their own pins and timer",
 "Enabling, switching on, off and toggling an LED, or using a pin's direction, output or input, affects exactly the selected pin of the selected port for every port and pin. The timer-1 PWM helper configures its pin as output with 10-bit fast, non-inverting PWM at full clock without disturbing other settings, and writes any duty value to the compare register as one atomic 16-bit value.",
 ["inputs", "schedules"], "every port and pin, every prior port content, every duty value, interrupts at every instruction",
 "Never executed by a test.",
 [AT, RG], [("pin and PWM helpers", "include/mcu/atmega328.hpp:gpio,led,tc1_pwm_on_a_pb1")], ["port and timer registers of the emulated device"])

prop("C38", "The numeric library gives the same results on the microcontroller",
 "Fixed-point and integer matrix results computed on the ATmega328P are identical to those on the desktop, and floating-point Kalman and matrix results agree to single-precision rounding, for the same inputs. The computations stay inside their own memory and leave the stack balanced.",
 ["inputs", "configurations"], "all inputs of the numeric types supported on both targets",
 "The microcontroller build is compiled but never executed; 16-bit int and the bundled standard library select different code.",
 [FX, MX, K] + STD[:5], [("microcontroller branches of the headers", "include/std/*.hpp, include/num/*.hpp")], ["results computed by firmware on the emulated device versus host results"])

prop("C39", "ADC and EEPROM access follow the device's access protocol",
 "Starting conversions and reading results returns the sample of one single conversion, low and high byte never mixed, whatever the converter does meanwhile, and start, channel, reference and trigger settings take effect as given. EEPROM bytes written through the access functions and read back return the same data at the same address for all addresses and data.",
 ["inputs", "schedules"], "all channels, results, addresses and data, conversions completing at any instruction",
 "Needs the peripheral's latching and timing behaviour; nothing executes it in the tests.",
 [AT], [("16-bit result read order", "include/mcu/atmega328.hpp:adc::conversion::result"), ("EEPROM register access", "include/mcu/atmega328.hpp:mem::eeprom")], ["results returned by firmware on the emulated device with a latching ADC and EEPROM model"])

prop("C40", "The example firmware performs its documented function on the device",
 "The LED blinks at its documented rate on its pin only, the heartbeat fires every millisecond, and the ADC-to-PWM example passes each sampled value, clamped to the valid range, to the PWM output and signals the upper half on the LED. This holds for every ADC input history and interrupt timing, without stack overflow or accesses outside the device's memory.",
 ["histories", "schedules"], "ADC input histories and interrupt phases over seconds of emulated time",
 "The firmware is only compiled by the project's build.",
 [AT, RG, "example/avr/avr-adc-dac-isr-atmega.e.cpp", "example/avr/avr-blink-led-isr.e.cpp"], [("library calls made by the examples", "example/avr/*.cpp")], ["pin and timer event log of the emulated device"])

# ---------------------------------------------------------------- the library as a whole
prop("C41", "Results depend only on the arguments and objects used: no hidden shared state",
 "Every function and object of the desktop library (estimator, matrices, fixed point, filters, cascades, designs, level conversions, ranges, text and printing) gives bit for bit the same result whatever was computed before in the process, however its steps are interleaved with the use of other objects, and while other threads use other objects of the same types. Distinct objects share no mutable state and observers do not change the object they observe, so using distinct objects, or only observing one object, from several threads is free of data races.",
 ["histories", "schedules", "inputs"], "all call histories, all interleavings of operations on distinct objects, all thread schedules",
 "Tests call each function in one order in one thread; a cache with an incomplete key, a static work area or a mutable member only shows for particular call histories, interleavings or schedules.",
 [K, MX, FX, BQ, BC, BD, FD, FI, OP, OD, CH, RA], [("objects hold all their state; functions have none", "include/**/*.hpp")], ["results of calls in one process against a process in which nothing else ran", "ThreadSanitizer's view of every memory access"])

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    try:
        import registry
    except ImportError:
        registry = None
    checks = []; na = []
    reg = registry.CHECKS if registry else {}
    nar = registry.NOT_APPLICABLE if registry else {}
    for p in P:
        i = p["id"]
        if i in reg:
            r = reg[i]
            checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i,
                thorough_cmd="python3 check.py %s thorough" % i,
                evidence_file="evidence/%s.json" % i, technique=r["technique"],
                level=r.get("level", "exploration"), level_note=r["note"]))
        else:
            na.append(dict(property=i, reason=nar.get(i, "check not built yet")))
    m = dict(version=1, setup_cmd="bash setup.sh",
             hooks=dict(guard="none", enable="no hooks: every check observes the public API, sanitizer reports or the emulated device's access log", source_commits=[]),
             checks=checks, not_applicable=na,
             notes="Generated by tools/props.py from tools/registry.py. See DESIGN.md.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1); f.write("\n")
    print(len(P), "properties", len(checks), "checks", len(na), "n/a")

if __name__ == "__main__":
    main()
