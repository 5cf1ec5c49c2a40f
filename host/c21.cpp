// C21, C22: Chebyshev designs against the closed-form magnitude of the type and the specification.
#include "dsp.hpp"
#include "dsp/chebyshev-design.hpp"
#include <limits>
using dsp::FilterResponse;
#ifndef TYPE
#define TYPE 1
#endif
template< class... A > auto design( A... a )
{
#if TYPE == 1
    return dsp::chebyshev1_lp_hp( a... );
#else
    return dsp::chebyshev2_lp_hp( a... );
#endif
}
static ld cheb( int n, ld x ) { x = std::fabs( x ); return x <= 1 ? std::cos( n * std::acos( x ) ) : std::cosh( n * std::acosh( x ) ); }
struct Spec { bool lp; ld fs, fp, ft, Ap, As; };
static std::string show( Spec const & s ) { return vm::fmt( "type %d %s fs=%.9Lg pass %.9Lg stop %.9Lg ripple %.6Lg dB attenuation %.6Lg dB", TYPE, s.lp ? "low-pass" : "high-pass", s.fs, s.fp, s.ft, s.Ap, s.As ); }
// frequency on the prototype axis (pass band towards 0)
static ld Om( Spec const & s, ld fn ) { ld si = std::sin( PIl * fn ), co = fn == .5L ? 0 : std::cos( PIl * fn ); return s.lp ? si / co : co / si; }
static ld ideal( Spec const & s, int N, ld fn, ld ep, ld es )
{
    ld W = Om( s, fn ), Wp = Om( s, s.fp / s.fs ), Ws = Om( s, s.ft / s.fs );
#if TYPE == 1
    (void)Ws; (void)es; if ( std::isinf( W ) ) return 0; ld t = ep * cheb( N, W / Wp ); return 1 / std::sqrt( 1 + t * t );
#else
    (void)Wp; (void)ep; if ( W == 0 ) return 1; ld c = cheb( N, std::isinf( W ) ? 0 : Ws / W ); if ( c == 0 ) return 0; ld t = es / c; return 1 / std::sqrt( 1 + t * t );
#endif
}
static ld dB( ld h ) { return 20 * std::log10( h ); }
template< class Cf > void judge( vm::Rng & g, Spec const & s, Cf const & cf, ld eps )
{
    constexpr int CAP = 24; using T = typename Cf::value_type;
    ld ep = std::sqrt( std::pow( 10.0L, s.Ap / 10 ) - 1 ), es = std::sqrt( std::pow( 10.0L, s.As / 10 ) - 1 ), Nex = std::acosh( es / ep ) / std::acosh( Om( s, s.ft / s.fs ) / Om( s, s.fp / s.fs ) );
    ld fuzz = 200 * eps * ( 1 + Nex ) * ( 1 + 1 / std::fabs( s.fp - s.ft ) * s.fs ); int N = int( std::ceil( Nex ) ); vm::event();
    if ( std::fabs( Nex - std::round( Nex ) ) < fuzz || fuzz > .2L ) { vm::counter( "order_ambiguous_skipped" ); return; }
    if ( N > 2 * CAP - 1 || N < 1 ) { vm::counter( "order_too_high_skipped" ); return; }
    if ( cf.info.N != N ) vm::fail( "order", "%s: order %d reported, the smallest order meeting the specification is %d (%.6Lg)", show( s ).c_str(), int( cf.info.N ), N, Nex );
    if ( int( cf.size() ) > CAP || cf.b.size() != cf.a.size() ) { vm::fail( "sections", "%s: %zu sections", show( s ).c_str(), size_t( cf.size() ) ); return; }
    auto bqc = dsp::make_biquad_cascade<CAP>( cf ); std::vector<Co> cs; int deg = 0;
    if ( int( bqc.size() ) != int( cf.size() ) ) vm::fail( "cascade-sections", "%s: the cascade has %d sections of %zu", show( s ).c_str(), int( bqc.size() ), size_t( cf.size() ) );
    for ( int i = 0; i < int( bqc.size() ) && i < int( cf.size() ); ++i )
    {
        auto a = bqc.coeff_a( i ); auto b = bqc.coeff_b( i ); auto w = bqc.state( i ); size_t k = size_t( i );
        if ( a.a1 != cf.a[k].a1 || a.a2 != cf.a[k].a2 || b.b0 != cf.b[k].b0 || b.b1 != cf.b[k].b1 || b.b2 != cf.b[k].b2 || w.v1 != 0 || w.v2 != 0 ) vm::fail( "cascade-sections", "%s: section %d of the cascade is not the designed section at rest", show( s ).c_str(), i );
        Co c{ ld( b.b0 ), ld( b.b1 ), ld( b.b2 ), ld( a.a1 ), ld( a.a2 ) }; cs.push_back( c ); deg += c.a2 != 0 ? 2 : c.a1 != 0 ? 1 : 0;
    }
    // an extra pole cancelled exactly does not occur in these designs: the pole count is the order
    if ( deg > N ) vm::fail( "order", "%s: the sections have %d poles, order %d suffices", show( s ).c_str(), deg, N );
    ld worst = 0; bool marginal = false;
    for ( auto & c : cs ) { ld M = std::max( std::fabs( c.a1 ), std::sqrt( std::fabs( c.a2 ) ) ) + 1, disc = std::sqrt( std::fabs( c.a1 * c.a1 - 4 * c.a2 ) ), mg = 256 * eps * M * M / std::max( disc, std::sqrt( eps ) * M ); worst = std::max( worst, maxpole( c ) ); if ( std::fabs( 1 - maxpole( c ) ) < mg ) marginal = true; }
    if ( marginal ) { vm::counter( "stability_within_rounding" ); return; }
    if ( !( worst < 1 ) || !is_stable( bqc ) ) vm::fail( "design-unstable", "%s: largest pole magnitude %.12Lg, reported %s", show( s ).c_str(), worst, is_stable( bqc ) ? "stable" : "not stable" );
    auto gain = [&]( ld fn, ld & rel ) { ld h = 1; rel = 0; for ( auto & c : cs ) { ld m = std::abs( H( c, fn ) ); h *= m; ld d = std::abs( den_( c, fn ) ); ld e = 24 * eps * ( 1 + std::fabs( c.a1 ) + std::fabs( c.a2 ) ) / d; if ( !( e < .05L ) ) e = 1; rel += e; } return h; };
    ld Wk = 64 * eps; bool full = true; ld peak = 0, dip = 10, prev = -1; int pts = 0;
    ld fpn = s.fp / s.fs, ftn = s.ft / s.fs;
    // pass band
    const int NP = 12 * N + 20;
    for ( int i = 0; i <= NP; ++i )
    {
        ld u = ld( i ) / NP; if ( i > 0 && i < NP && g.p( .3 ) ) u = g.u();
        ld fn = s.lp ? fpn * u : .5L - ( .5L - fpn ) * u, rel; ld h = gain( fn, rel ), want = ideal( s, N, fn, ep, es ); ld sens = 0;
        { ld d = 1e-7L; Spec p = s, m = s; p.fp *= 1 + d; m.fp *= 1 - d; p.ft *= 1 + d; m.ft *= 1 - d; sens = std::fabs( ideal( p, N, fn, ep, es ) - ideal( m, N, fn, ep, es ) ) / ( 2 * d ) * Wk; }
        ld tol = want * ( rel + 40 * eps * N ) + sens * 4 + 64 * eps * ( s.As + 1 ) / std::min( 1.0L, ep * ep );
        if ( tol > .003L ) { full = false; prev = -1; continue; }
        vm::event(); ++pts;
        if ( !vm::close( h, want, tol ) ) { vm::fail( "pass-band", "%s: gain %.9Lg (%.6Lg dB) at f/fs=%.9Lg, the order %d filter has %.9Lg", show( s ).c_str(), h, dB( h ), fn, N, want ); return; }
        if ( -dB( h ) > s.Ap + 9 * tol || h > 1 + tol ) { vm::fail( "pass-band-spec", "%s: attenuation %.9Lg dB at f/fs=%.9Lg in the pass band", show( s ).c_str(), -dB( h ), fn ); return; }
#if TYPE == 2
        if ( prev >= 0 && i == 0 ) prev = -1;
        if ( i == 0 && !vm::close( h, 1, tol ) ) vm::fail( "far-end-gain", "%s: gain %.9Lg at the far end of the pass band", show( s ).c_str(), h );
#endif
        peak = std::max( peak, h ); dip = std::min( dip, h ); prev = h;
    }
#if TYPE == 2
    {   // monotonic: gain falls from the far end to the band edge
        ld last = -1, lt = 0; bool ok = true;
        for ( int i = 0; i <= 60 && ok; ++i ) { ld u = ld( i ) / 60, fn = s.lp ? fpn * u : .5L - ( .5L - fpn ) * u, rel, h = gain( fn, rel ), tol = h * ( rel + 40 * eps * N ) + 1e-12L; if ( rel > .05L ) { last = -1; continue; } if ( last >= 0 && h > last + tol + lt ) { vm::fail( "pass-band-monotonic", "%s: gain rises from %.12Lg to %.12Lg at f/fs=%.9Lg", show( s ).c_str(), last, h, fn ); ok = false; } last = h; lt = tol; vm::event(); }
        ld f3 = cf.info.f3 / s.fs, rel; if ( s.As > 3.2L && f3 > 0 ) { ld h = gain( f3, rel ), d = 1e-7L, sens = std::fabs( ideal( s, N, f3 * ( 1 + d ), ep, es ) - ideal( s, N, f3 * ( 1 - d ), ep, es ) ) / ( 2 * d ), tol = rel + sens * 64 * eps * ( 1 + f3 / ( .5L - f3 ) ) + 200 * eps * N; vm::event(); if ( tol < .02L && !vm::close( h * h, .5L, 3 * tol ) ) vm::fail( "3dB-frequency", "%s: gain at the reported 3 dB frequency %.9Lg is %.9Lg", show( s ).c_str(), ld( cf.info.f3 ), h ); }
        else if ( s.As > 3.2L ) vm::fail( "3dB-frequency", "%s: reported 3 dB frequency is %.9Lg", show( s ).c_str(), ld( cf.info.f3 ) );
    }
#else
    {   // equiripple: the extremes of the pass band are exactly 0 dB and the ripple, N half-waves
        if ( full )
        {
            for ( int k = 0; k <= N; ++k )
            {
                ld W = Om( s, fpn ) * std::cos( PIl * k / ( 2 * N ) ), fn = s.lp ? std::atan( W ) / PIl : .5L - std::atan( W ) / PIl, rel, h = gain( fn, rel ), want = k % 2 ? 1 : 1 / std::sqrt( 1 + ep * ep ); vm::event();
                ld tol = rel + 100 * eps * N * ( 1 + 1 / std::min( 1.0L, ep * ep ) ) + 64 * eps * N * N / ( fpn * ( .5L - fpn ) ); if ( tol > .003L ) continue;
                if ( !vm::close( h, want, tol ) ) { vm::fail( "equiripple", "%s: gain %.9Lg at the %d. ripple extreme f/fs=%.9Lg, expected %.9Lg", show( s ).c_str(), h, k, fn, want ); break; }
            }
        }
        if ( s.Ap < 3 && N > 0 ) { ld f3 = cf.info.f3 / s.fs, rel, h = gain( f3, rel ), d = 1e-7L, sens = std::fabs( ideal( s, N, f3 * ( 1 + d ), ep, es ) - ideal( s, N, f3 * ( 1 - d ), ep, es ) ) / ( 2 * d ), tol = rel + sens * 64 * eps * ( 1 + f3 / ( .5L - f3 ) ) + 200 * eps * N / std::min( 1.0L, ep * ep ); vm::event(); if ( tol < .02L && !vm::close( h * h, .5L, 3 * tol ) ) vm::fail( "3dB-frequency", "%s: gain at the reported 3 dB frequency %.9Lg is %.9Lg", show( s ).c_str(), ld( cf.info.f3 ), h ); }
    }
#endif
    // stop band
    ld floor_ = std::pow( 10.0L, -s.As / 20 );
    for ( int i = 0; i <= 40; ++i )
    {
        ld u = ld( i ) / 40, fn = s.lp ? ftn + ( .5L - ftn ) * u : ftn * ( 1 - u ), rel, h = gain( fn, rel ), want = ideal( s, N, fn, ep, es ), mag = 1;
        for ( auto & c : cs ) mag *= ( std::fabs( c.b0 ) + std::fabs( c.b1 ) + std::fabs( c.b2 ) ) / std::abs( den_( c, fn ) );
        ld tol = want * rel + 40 * eps * N * mag + floor_ * ( 64 * eps * N * N / ( ftn * ( .5L - ftn ) ) / std::fabs( fpn - ftn ) + rel ); if ( tol > .05L * floor_ || rel > .05L ) { full = false; continue; }
        vm::event(); ++pts;
        if ( h > floor_ + 3 * tol ) { vm::fail( "stop-band-spec", "%s: attenuation %.9Lg dB at f/fs=%.9Lg in the stop band", show( s ).c_str(), -dB( h ), fn ); return; }
    }
    if ( pts ) { vm::distinct( vm::hashd( vm::hashd( hashco( cs[0] ), double( s.ft ) ), sizeof( T ) ) ); vm::counter( vm::fmt( "order_%02d", N ) ); vm::counter( "points", uint64_t( pts ) ); vm::sample( "%s -> order %d, %zu sections", show( s ).c_str(), N, cs.size() ); }
    if ( !full ) vm::counter( "designs_partly_ill_conditioned" );
}
template< class FS, class FP, class FT, class AP, class AS > void run( vm::Rng & g, bool lp, FS fs, FP fp, FT ft, AP ap, AS as )
{
    auto cf = design( lp ? FilterResponse::low_pass : FilterResponse::high_pass, fs, fp, ft, ap, as ); using T = typename decltype( cf )::value_type;
    if ( !( std::is_same<T, std::common_type_t<float, FS, FP, FT, AP, AS>>::value ) ) vm::fail( "result-type", "result type is the common type, at least float" );
    Spec s{ lp, ld( T( fs ) ), ld( T( fp ) ), ld( T( ft ) ), std::max( ld( T( ap ) ), ld( T( .01 ) ) ), std::max( ld( T( as ) ), ld( T( .01 ) ) ) };
    judge( g, s, cf, std::numeric_limits<T>::epsilon() );
}
template< class T > void any( vm::Rng & g )
{
    bool lp = g.p( .5 ); T fs = T( g.p( .2 ) ? g.pick( { 1., 2., M_PI, 2 * M_PI, 10., 100., 1000., 8000., 44100., 48000., 96000. } ) : g.p( .5 ) ? g.logu( .1, 1e6 ) : double( g.i( 10, 192000 ) ) ); double lo = sizeof( T ) == 4 ? .02 : .001;
    double a, b; do { a = g.p( .6 ) ? g.uni( lo, .5 - lo ) : g.logu( lo, .45 ); b = g.p( .5 ) ? g.uni( lo, .5 - lo ) : std::min( .499, a * g.uni( 1.02, 2.5 ) ); } while ( std::fabs( a - b ) < .01 * std::max( a, b ) );
    if ( sizeof( T ) == 8 && g.p( .15 ) ) { a = g.logu( 1e-5, .02 ); b = std::min( .499, a * ( g.p( .5 ) ? g.uni( 1.05, 3 ) : g.logu( 3, 1e4 ) ) ); if ( !lp ) { a = .5 - a; b = .5 - b; } }   // close to DC or Nyquist
    if ( g.p( .1 ) ) { static const double n[] = { .25, .25, 1 / 3., 1 / 6., .125, .375, .1, .2, .4 }; double v = n[ g.i( 0, 8 ) ]; ( g.p( .5 ) ? a : b ) = v; if ( std::fabs( a - b ) < .01 * std::max( a, b ) ) return; }
    if ( a > b ) std::swap( a, b );
    T fp = T( fs * ( lp ? a : b ) ), ft = T( fs * ( lp ? b : a ) ), ap = T( g.p( .1 ) ? .005 : g.p( .3 ) ? double( g.i( 1, 3 ) ) : g.p( .15 ) ? g.logu( 5, 40 ) : g.p( .05 ) ? 3.010299956639812 : g.logu( .01, 6 ) ), as = T( ap + ( g.p( .15 ) ? g.logu( 60, 220 ) : g.p( .1 ) ? 20.0 * double( g.i( 1, 6 ) ) : g.p( .1 ) ? g.logu( .02, .5 ) : g.logu( .3, 90 ) ) );
    run( g, lp, fs, fp, ft, ap, as );
}
// coefficients made by hand: the cascade has their sections, all of them, in order and at rest
template< class T > void byhand( vm::Rng & g )
{
    constexpr int CAP = 9; dsp::DigitalCoeffT<T> cf; int n = int( g.i( 0, CAP ) ); T last[5] = {}; bool coarse = g.p( .4 );
    for ( int i = 0; i < n; ++i )
    {
        for ( auto & v : last ) if ( i == 0 || g.p( .6 ) ) v = T( coarse ? double( g.i( -2, 2 ) ) : g.p( .1 ) ? g.sgn() * g.logu( 1e-30, 1e30 ) : g.uni( -2, 2 ) );   // often like the section before
        cf.b.emplace_back( last[0], last[1], last[2] ); cf.a.emplace_back( last[3], last[4] );
    }
    auto bqc = dsp::make_biquad_cascade<CAP>( cf ); vm::event();
    if ( int( bqc.size() ) != n ) { vm::fail( "cascade-sections", "the cascade of %d given sections has %d", n, int( bqc.size() ) ); return; }
    for ( int i = 0; i < n; ++i )
    {
        auto a = bqc.coeff_a( i ); auto b = bqc.coeff_b( i ); auto w = bqc.state( i ); size_t k = size_t( i );
        if ( a.a1 != cf.a[k].a1 || a.a2 != cf.a[k].a2 || b.b0 != cf.b[k].b0 || b.b1 != cf.b[k].b1 || b.b2 != cf.b[k].b2 || w.v1 != 0 || w.v2 != 0 ) { vm::fail( "cascade-sections", "section %d of %d of the cascade is not the given section at rest", i, n ); return; }
    }
    if ( n ) vm::distinct( vm::hashd( vm::hashd( uint64_t( n ), double( last[0] ) ), double( last[4] ) ) );
}
GROUP( hand, 3000, 100000 ) { byhand<double>( g ); byhand<float>( g ); }
GROUP( dbl, 2500, 60000 ) { any<double>( g ); }
GROUP( flt, 2500, 60000 ) { any<float>( g ); }
GROUP( integers, 600, 20000 )
{
    bool lp = g.p( .5 ); int fs = int( g.i( 100, 48000 ) ), a = int( g.i( fs / 40 + 1, fs / 2 - fs / 20 ) ), b = int( g.i( a + fs / 50 + 1, fs / 2 - 1 ) ), ap = int( g.i( 1, 5 ) ), as = int( g.i( ap + 1, 70 ) ); if ( b >= fs / 2 || b <= a || 2 * b >= fs ) return;
    int fp = lp ? a : b, ft = lp ? b : a;
    switch ( g.i( 0, 3 ) ) { case 0: run( g, lp, fs, fp, ft, ap, as ); break; case 1: run( g, lp, fs, fp, ft, double( ap ) / 2, as ); break; case 2: run( g, lp, float( fs ), fp, ft, ap, as ); break; default: run( g, lp, fs, fp, ft, ap * .5f, float( as ) ); }
}
VMON_MAIN
