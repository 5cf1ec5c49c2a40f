// C24: one-pole designs.
#include "dsp.hpp"
#include "dsp/onepole-design.hpp"
#include <limits>
using dsp::FilterResponse;
template< FilterResponse R, class F, class S > void one( F f, S fs )
{
    auto cf = dsp::onepole_design<R>( f, fs ); using T = typename decltype( cf )::value_type; if ( !( std::is_same<T, std::common_type_t<float, F, S>>::value ) ) vm::fail( "result-type", "result type" );
    auto q = dsp::make_onepole( cf ); vm::event(); ld eps = std::max<ld>( std::numeric_limits<T>::epsilon(), std::numeric_limits<double>::epsilon() );
    Co c; c.b0 = q.coeff_b().b0; c.a1 = q.coeff_a().a1; ld fr = ld( T( f ) ) / ld( T( fs ) ); constexpr bool lp = R == FilterResponse::low_pass; const char * nm = lp ? "low_pass" : "high_pass";
    ld p = lp ? std::exp( -2 * PIl * fr ) : -std::exp( -2 * PIl * ( .5L - fr ) ), edge = 1 - std::fabs( p );
    if ( q.state().v1 != 0 ) vm::fail( "not-at-rest", "%s %.9Lg/%.9Lg: designed filter is not at rest", nm, ld( f ), ld( fs ) );
    if ( !vm::close( -c.a1, p, 16 * eps ) ) vm::fail( vm::fmt( "%s-pole", nm ), "%s %.9Lg/%.9Lg: pole at %.12Lg, expected %.12Lg", nm, ld( f ), ld( fs ), -c.a1, p );
    ld rp = q.poles().s0.real(); if ( !vm::close( rp, p, 16 * eps ) ) vm::fail( vm::fmt( "%s-reported-pole", nm ), "%s %.9Lg/%.9Lg: reported pole %.12Lg, expected %.12Lg", nm, ld( f ), ld( fs ), rp, p );
    if ( edge > 64 * eps && ( !( std::fabs( c.a1 ) < 1 ) || !q.is_stable() ) ) vm::fail( vm::fmt( "%s-unstable", nm ), "%s %.9Lg/%.9Lg: a1=%.12Lg, reported %s", nm, ld( f ), ld( fs ), c.a1, q.is_stable() ? "stable" : "not stable" );
    if ( edge < 400 * eps ) { vm::counter( "ill_conditioned" ); return; }
    ld rel = 40 * eps / edge; ld g0 = std::abs( H( c, lp ? 0 : .5L ) );
    if ( !vm::close( g0, 1, rel ) ) vm::fail( vm::fmt( "%s-gain", nm ), "%s %.9Lg/%.9Lg: gain %.12Lg at %s", nm, ld( f ), ld( fs ), g0, lp ? "DC" : "Nyquist" );
    if ( std::abs( H( c, lp ? .5L : 0 ) ) > edge * 1.05L / ( 1 + std::fabs( p ) ) + rel ) vm::fail( vm::fmt( "%s-far-gain", nm ), "%s %.9Lg/%.9Lg: gain %.9Lg at the stop end", nm, ld( f ), ld( fs ), std::abs( H( c, lp ? .5L : 0 ) ) );
    ld prev = 2; for ( int k = 0; k <= 32; ++k ) { ld fn = lp ? .5L * k / 32 : .5L - .5L * k / 32, h = std::abs( H( c, fn ) ); vm::event(); if ( h > prev * ( 1 + 1e-12L ) ) { vm::fail( vm::fmt( "%s-monotonic", nm ), "%s %.9Lg/%.9Lg: magnitude rises from %.12Lg to %.12Lg at f/fs=%.6Lg", nm, ld( f ), ld( fs ), prev, h, fn ); break; } prev = h; }
    // low cut-offs (distance to the pass end) are 3 dB down at the requested frequency
    ld d = lp ? fr : .5L - fr; if ( d < .05L && rel < .005L ) { ld h = std::abs( H( c, fr ) ); vm::event(); vm::counter( "3dB_points" ); if ( !vm::close( h, std::sqrt( .5L ), .006L + rel ) ) vm::fail( vm::fmt( "%s-3dB", nm ), "%s %.9Lg/%.9Lg: gain %.9Lg at the cut-off", nm, ld( f ), ld( fs ), h ); }
    // the filter itself settles to the pass-band gain
    if ( edge > .01L ) { long n = long( 40 / edge ); ld y = 0; for ( long i = 0; i < n; ++i ) { y = q.step( T( lp || i % 2 == 0 ? 1 : -1 ) ); vm::event(); } y *= lp || n % 2 ? 1 : -1; if ( !vm::close( y, 1, rel + 40 * eps / edge ) ) vm::fail( vm::fmt( "%s-settles", nm ), "%s %.9Lg/%.9Lg: settles to %.12Lg", nm, ld( f ), ld( fs ), y ); }
    vm::distinct( vm::mix( hashco( c ), sizeof( T ) ) ); vm::sample( "%s %.6Lg/%.6Lg -> b0=%.9Lg a1=%.9Lg", nm, ld( f ), ld( fs ), c.b0, c.a1 );
}
template< FilterResponse R > void all( vm::Rng & g )
{
    double fs = rate( g ), f = fs * freqRatio( g );
    if ( !( f > 0 && f < fs / 2 ) ) return;
    one<R>( f, fs ); one<R>( float( f ), float( fs ) ); int ifs = irate( g, 3, 96000 ), jf = ifreq( g, ifs );
    switch ( g.i( 0, 4 ) ) { case 0: one<R>( jf, ifs ); break; case 1: one<R>( jf, double( ifs ) ); break; case 2: one<R>( float( jf ), ifs ); break; case 3: one<R>( long( jf ), unsigned( ifs ) ); break; default: one<R>( ld( f ), fs ); }
}
GROUP( lowpass, 4000, 100000 ) { all<FilterResponse::low_pass>( g ); }
GROUP( highpass, 4000, 100000 ) { all<FilterResponse::high_pass>( g ); }
VMON_MAIN
