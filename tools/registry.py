"""Which properties have a check, and how each is run (read by check.py and tools/props.py)."""
SAN = "sanitizers (ASan+UBSan) plus an independent reference-model monitor over generated workloads"

def host(n, rule, note, variants=("asan", "o2"), tv=("ndebug", "clang", "cubsan"), scale=None, flags=(), technique=SAN, min_distinct=50, assumptions=(), aux=(), qscale=None, parts=1, probes=None):
    return dict(kind="host", probes=probes or {}, src="host/%s.cpp" % n, rule=rule, note=note, variants=list(variants), thorough_variants=list(tv),
                scale=scale or {}, flags=list(flags), technique=technique, min_distinct=min_distinct, assumptions=list(assumptions), aux=list(aux), qscale=qscale or {}, parts=parts)

MCU = "monitors over the library's real ATmega328P firmware executing on an instruction-level device model (every load, store and interrupt observed)"
def mcu(n, rule, note, fw=None, variants=("avrO2", "avrOs"), tv=("avrO1", "avrO3"), technique=MCU, min_distinct=50, assumptions=(), scale=None, flags=()):
    return dict(kind="host", src="emu/%s.cpp" % n, fw=list(fw or ["avr/%s.cpp" % n]), rule=rule, note=note, variants=list(variants), thorough_variants=list(tv), scale=scale or {},
                flags=list(flags), technique=technique, min_distinct=min_distinct, assumptions=["the device model stands for the microcontroller: instruction set, flag and access-protocol behaviour as in the data sheet"] + list(assumptions))

# user programs that include nothing but the header under test and use what it offers
MAIN = "int main() { %s }"
HEADERS_C18 = {"dsp/biquad-design.hpp": MAIN % "auto f = dsp::make_biquad( dsp::biquad_design<dsp::FilterResponse::low_pass>( 0, 1, 4, 1. ) ); return f.step( 0. ) == 0 ? 0 : 1;",
    "dsp/filter-design.hpp": MAIN % "double k = dsp::prewarp( 1., 4. ); return k > .999 && k < 1.001 ? 0 : 1;"}
HEADERS_C27 = {"core/text.hpp": MAIN % "return core::line( 3, 'x' ) == \"xxx\" && core::replaced( \"aba\", \"a\", \"c\" ) == \"cba\" ? 0 : 1;",
    "core/core.hpp": MAIN % "return core::as<int>( 2.9 ) == 2 && core::line( 2 ) == \"--\" ? 0 : 1;"}
HEADERS_C27.update({h: "#include <sstream>\n" + MAIN % ( "std::ostringstream os; %s; return os.str() == %s ? 0 : 1;" % ( e, '"%s"' % w ) ) for h, e, w in [
    ("core/vector-io.hpp", "os << std::vector<int>{ 1, 2 }", "[ 1 2]"), ("num/matrix-io.hpp", "os << num::matrix<int,1,2>{ 1, 2 }", " 1 2\\n"), ("num/fixed-point-io.hpp", "os << num::fixed_point<int,15>( 1.5 )", "1.5"),
    ("dsp/biquad-io.hpp", "os << dsp::biquad::AT<double>{ 1, 2 }", "[A 1, 2 ]"), ("dsp/onepole-io.hpp", "os << dsp::onepole::AT<double>{ 1 }", "[A 1 ]")]})
HEADERS_C28 = {"std/complex.hpp -D__AVR=1": MAIN % "std20::complex<double> z( 3, 4 ), y; std20::complex<float> f( 1, 2 ); y = z; if ( y.imag() != 4 ) return 1; y = f; if ( y.imag() != 2 ) return 2; ( y = 5. ).imag( 1 ); return y.real() == 5 && y.imag() == 1 ? 0 : 3;",
    "std/tuple.hpp -D__AVR=1": MAIN % "return 0;", "std/utility.hpp -D__AVR=1": MAIN % "int a = 1, b = 2; std20::swap( a, b ); return a == 2 && b == 1 ? 0 : 1;",
    "std/tuple.hpp": MAIN % "std20::tuple<int, char> t( 3, 'c' ); std20::ignore = t; return std::get<0>( t ) == 3 ? 0 : 1;", "std/complex.hpp": MAIN % "std20::complex<double> z( 3, 4 ); return z.imag() == 4 ? 0 : 1;",
    "std/utility.hpp": MAIN % "int a = 1, b = 2; std20::swap( a, b ); return a == 2 && b == 1 ? 0 : 1;", "std/algorithm.hpp": MAIN % "int a[] = { 1, 2 }, b[2]; std20::copy( a, a + 2, b ); return std20::equal( a, a + 2, b ) ? 0 : 1;",
    "std/limits.hpp": MAIN % "return std20::numeric_limits<short>::digits == 15 ? 0 : 1;", "std/type_traits.hpp": MAIN % "return std20::is_integral_v<int> ? 0 : 1;", "std/cstdint.hpp": MAIN % "return sizeof( std20::int16_t ) == 2 ? 0 : 1;"}

NUMASM = ["tolerances are a-priori rounding-error bounds of the number type; models whose bound exceeds a few percent are skipped and counted"]
CHECKS = {
"C01": host("c01", "distinct models (hash of all model matrices) run through at least one update",
    "Every update in random histories is compared with an independent long double predict-correct step within a rounding bound; bounded by case counts, dimensions are all that instantiate (2 states, 1-2 measurements, 1-2 controls).", assumptions=NUMASM),
"C02": host("c02", "distinct models whose history was compared with the batch posterior or with a second data history",
    "Recursive estimate against a batch Gaussian posterior over the whole history (up to 12 updates), data independence and linearity over up to 30 updates.", assumptions=NUMASM),
"C03": host("c03", "distinct models whose covariance was monitored",
    "Online invariants after every update (symmetry, definiteness, shrinkage), and long runs (6000-480000 updates) against the Riccati fixed point.", scale={"asan": .5}, assumptions=NUMASM),
"C04": host("c04", "distinct operation traces or models",
    "Filters are built in poisoned memory and driven in random interleavings; each is compared with a lone replay of its own history. The thorough tier adds valgrind memcheck for uninitialised reads.", tv=("ndebug", "clang", "cubsan", "vg")),
"C05": host("c05", "distinct models that ran at least one update in fixed point",
    "32-bit formats with 11-23 fraction bits; one-step running error bound in units of the resolution, whole-history tolerance measured by perturbation.", scale={"asan": .15}, assumptions=["models are generated well scaled; a run stops where an intermediate could leave the range"], qscale={"asan": 2, "o2": 4}),
"C06": host("c06", "distinct (format, value) pairs",
    "8- and 16-bit formats are enumerated completely for every split; 32-bit values, floating-point and integer sources are sampled with extremes and rounding boundaries.", parts=3, qscale={"asan": 1.5, "o2": 2}),
"C07": host("c07", "distinct (format, operand) combinations",
    "Every pair of 8-bit operands in every split, sampled pairs and operation sequences for 16 and 32 bit, against exact 128-bit integers; undefined behaviour is decided by UBSan.", tv=("ndebug", "clang", "cubsan"), qscale={"asan": 1.5, "o2": 2.5}),
"C08": host("c08", "distinct (format, pair) combinations",
    "Every pair of 8-bit values in every split, sampled pairs with near ties for 16 and 32 bit, mixed operands on both sides.", qscale={"asan": 1.5, "o2": 3}),
"C09": host("c09", "distinct (operator, shapes, operand values) combinations",
    "Every operator over every pair of accepted shapes out of 13 up to 4x4 (8 up to 3x3 for float, int and fixed point) with random values, against long double definitions; operands on both sides, aliased and repeated.",
    assumptions=["which operand shapes are supported is what the library's own overloads accept"], parts=6, qscale={"asan": 1.5, "o2": 4}),
"C10": host("c10", "distinct (shape, contents) combinations",
    "All access paths and list lengths for all shapes up to 5x5 in poisoned exactly-sized heap blocks; all operators on such blocks under ASan/UBSan bounds checks; valgrind memcheck in the thorough tier.", tv=("ndebug", "clang", "cubsan", "vg"), parts=5, qscale={"asan": 1.5, "o2": 6}),
"C11": host("c11", "distinct argument values",
    "Random well-conditioned arguments; identities up to size 6. The wrong inverse of non-symmetric 2x2 matrices, which an existing test pins, is a known finding with its exact signature."),
"C12": host("c12", "distinct (coefficients, signal) pairs filtered",
    "All three step forms against a long double direct-form-I reference with a running rounding-error bound, exact dyadic data bit for bit, fixed-point forms within their accumulated resolution.", assumptions=NUMASM),
"C13": host("c13", "distinct operation traces",
    "Random step/reset/copy/swap/observe histories on several filters against replays on fresh filters (bit for bit), plus linearity and time shift.", assumptions=NUMASM),
"C14": host("c14", "distinct coefficient sets",
    "Roots against a long double quadratic solver with conditioning-aware tolerance; stability verdict judged outside a rounding margin around the unit circle.", assumptions=NUMASM),
"C15": host("c15", "distinct (coefficients, frequency) pairs",
    "Response against the DFT of the impulse response the filter really produces, against steady-state sinusoids, and against H(z) in long double.", assumptions=NUMASM),
"C16": host("c16", "distinct edit histories",
    "Random edit histories for capacities 1-8 against a list model, coefficients and states compared bit for bit; over-capacity and out-of-range edits run in child processes under ASan and must be trapped by the assertion.", tv=("clang", "cubsan")),
"C17": host("c17", "distinct (sections, signal) pairs",
    "Cascade outputs bit for bit against a chain of separate filters of the same form, response against the product, verdict against each section.", assumptions=NUMASM),
"C18": host("c18", "distinct (response, frequency, rate, Q) specifications",
    "Designed coefficients evaluated in long double against the bilinear transform of the prototype on a frequency grid, stability, end points, -3 dB bandwidth, mixed argument types.",
    assumptions=NUMASM + ["long double designs are only held to double precision: the library's pi literal is a double"], probes=HEADERS_C18),
"C19": host("c19", "distinct (response, frequency, rate, Q or slope, gain) specifications",
    "As C18 for shelves and peaking equalisers: end-point and centre gain, shape against the prototype, monotonicity, boost times cut is one.", assumptions=NUMASM),
"C20": host("c20", "distinct (filter, specification, signal) combinations",
    "Output sequences bit for bit against a BiQuad built from the design, and within a rounding bound against a long double reference built from the prototype; copies; long bounded runs.", assumptions=NUMASM),
"C21": host("c21", "distinct specifications",
    "Cascade response on a dense grid over pass band and stop band against the specification, equiripple count, minimal order from an independent formula, sections against the independent prototype poles.", assumptions=NUMASM),
"C22": host("c22", "distinct specifications",
    "As C21 for the inverse Chebyshev design: stop-band, monotonic pass band, minimal order, reported 3 dB frequency.", assumptions=NUMASM),
"C23": host("c23", "distinct (coefficients, signal) pairs and operation traces",
    "Recursion against long double with a running bound, histories of step/reset/copy/swap bit for bit, pole, verdict and response against the denominator and the impulse response.", assumptions=NUMASM),
"C24": host("c24", "distinct (response, frequency, rate) specifications",
    "Pole position, pass-band gain, monotonicity over a grid and the -3 dB point for low cut-offs, mixed argument types.", assumptions=NUMASM),
"C25": host("c25", "distinct levels, ratios and frequencies",
    "Against long double log10/pow/tan, inverse and product laws, integer arguments of several types.", assumptions=NUMASM),
"C26": host("c26", "distinct (types, first, end, step) combinations",
    "All range kinds over integer, floating-point and mixed types, read in six ways (including several readers and copied iterators), against first + k*step computed in long double.", assumptions=["bounds are chosen so that the first value at or beyond the end is representable in the common type"]),
"C27": host("c27", "distinct printed texts",
    "Captured output compared with the layout filled with independently printed element values under random stream formats; printed roots are parsed and put into the printed polynomial; printed verdicts judged by the poles.", probes=HEADERS_C27),
"C28": host("c28", "distinct (function, argument) combinations",
    "Differential against std:: for all iterator categories and value types; the microcontroller branches are compiled in a translation unit of their own with __AVR defined.", aux=[("host/c28_avr.cpp", ["-D__AVR=1"])], probes=HEADERS_C28),
"C41": host("c41", "distinct calls (function and parameters) and interleavings judged against a process of their own",
    "Programs over the whole library with parameters from small pools, in random histories, interleaved step by step by a scheduler, and on free-running threads; every output is compared bit for bit with a process in which nothing else ran, and ThreadSanitizer watches all accesses.",
    variants=("asan", "o2", "tsan"), tv=("ndebug", "clang"), flags=("-pthread",), technique="ThreadSanitizer, ASan/UBSan and an online comparison with a pristine process over random call histories, interleavings and threads", qscale={"asan": 1, "o2": 4, "tsan": 2}),
"C29": mcu("c29", "distinct (operation, register, field, previous content, value) combinations",
    "Every accessor for every field position and width of 8-bit registers and whole/partial 16-bit registers; the register contents and values are enumerated or sampled, and every load and store the compiled accessor makes is inspected."),
"C30": mcu("c30", "distinct (combination, previous content, values) tuples",
    "Every order of up to four (and several of eight) combined field settings on three registers, both groupings, plus the library's own settings combined; the store log must show exactly one write, before the next statement, of the right value.", fw=["avr/c30.cpp", "avr/c30b.cpp", "avr/c30c.cpp"]),
"C31": mcu("c31", "distinct (definition, previous contents, value) combinations",
    "Every register and field definition of the library against an independently typed data sheet table, in reading and writing, for several previous contents; address, mask and unchanged neighbours are judged from the access log."),
"C32": mcu("c32", "distinct (setting, value, previous contents) combinations",
    "Every setting function of every peripheral header with all its values over random previous register contents: code in the register, value read back, everything else unchanged. Three registers whose write-one-to-clear flag is lost by an ordinary setting are known findings."),
"C33": mcu("c33", "distinct (flag, pending flags, configuration) combinations",
    "Every flag-clearing and flag-reading operation over all pending-flag combinations and random configuration bits on the device model with write-one-to-clear semantics."),
"C34": mcu("c34", "distinct (access, interrupt position, values) combinations",
    "The handler is injected before every single instruction of the accessing code; the value yielded or left must be one whole value, interrupts are on again, and single-byte accesses never disable them."),
"C35": mcu("c35", "distinct (routine, interrupted instruction, handler) combinations",
    "Handlers that use the status guard are injected before every instruction of interrupted arithmetic (fixed point, matrices, integer); results, all registers, SREG and the stack must be those of the uninterrupted run.", assumptions=["SREG is stored by the library only through its guard types; the firmware's own stores to SREG are kept out of line, as the compiler does not know they change the flags"]),
"C36": mcu("c36", "distinct bus histories",
    "The two-wire master against a scripted slave: the bus log and the status returned under acknowledge failures, arbitration loss, wrong status codes and arbitrary latencies."),
"C37": mcu("c37", "distinct (helper, port contents) combinations",
    "All pin, LED and PWM helpers on all ports with random neighbours and interrupts changing other pins between any two instructions; the pin and timer log is judged."),
"C38": mcu("c38", "distinct operand tuples",
    "The numeric library compiled for the device, compared with references in long double and exact integers: fixed point of all formats, matrices and the Kalman estimator with int and double of device width.", fw=["avr/c38.cpp", "avr/c38b.cpp", "avr/c38c.cpp", "avr/c38d.cpp", "avr/c38e.cpp", "avr/c38f.cpp"]),
"C39": mcu("c39", "distinct (address, data, channel, interrupt position) combinations",
    "ADC and EEPROM models with latching, busy times and write windows; conversions complete before every instruction of the reading code.", tv=("avrO3",), assumptions=["the four cycles between EEMPE and EEPE are judged at -O2, the project's level, and -O3; at -Os, where the access functions are not inlined, the window is widened"]),
"C40": mcu("c40", "distinct decisions, values and interrupt positions",
    "The example programs run from reset with random memory contents for seconds of device time; LED, PWM and heartbeat events are compared with the converter's input history, and a conversion is made to end before every instruction around a decision.", fw=["@example/avr/avr-adc-dac-isr-atmega.e.cpp", "@example/avr/avr-blink-led-isr.e.cpp", "@example/avr/avr-blink-led.e.cpp", "@example/avr/avr-fade-led.e.cpp", "@example/avr/avr-adc-isr.e.cpp", "@example/avr/avr-kalman-sim.e.cpp"]),
}
NOT_APPLICABLE = {}
