// C18: low-, high-, band-pass and band-stop designs against their bilinear-transformed prototypes.
#include "design.hpp"

template< FilterResponse R, class F, class S, class QT, class DB > auto design( DB d, F f, S fs, QT q )
{
    auto c = dsp::biquad_design<R>( d, f, fs, q ); using T = typename decltype( c )::value_type;
    if ( !( std::is_same<T, std::common_type_t<float, DB, F, S, QT>>::value ) ) vm::fail( "result-type", "result type" );
    if ( !( std::is_floating_point<T>::value && sizeof( T ) >= sizeof( float ) ) ) vm::fail( "result-type", "result type is at least float" );
    return dsp::make_biquad( c );
}
static void judge( FilterResponse R, Co const & c, bool stable, ld f, ld fs, ld Q, ld eps, vm::Rng & g )
{
    Proto p = proto( R, 0, Q ); ld fr = f / fs, K = std::tan( PIl * fr ); Co ideal = coproto( p, K ); vm::event();
    if ( 1 - maxpole( ideal ) > poleMargin( ideal, eps ) ) { if ( !stable || !( maxpole( c ) < 1 ) ) vm::fail( "design-unstable", "%s f=%.9Lg fs=%.9Lg Q=%.9Lg gives %s: poles of magnitude %.9Lg, reported %s", rname( R ), f, fs, Q, show( c ).c_str(), maxpole( c ), stable ? "stable" : "not stable" ); }
    else vm::counter( "stability_within_rounding" );
    bool checked = false;
    for ( int k = 0; k < 11; ++k )
    {
        ld fn = k == 0 ? 0 : k == 1 ? .5L : k == 2 ? fr : k == 3 ? fr * .9L : k == 4 ? std::min( .5L, fr * 1.1L ) : k == 5 ? fr / 2 : k == 6 ? ( fr + .5L ) / 2 : ld( g.uni( 0, .5 ) );
        lc want = Hproto( p, K, fn ), got = H( c, fn ); ld tol = Htol( p, fr, fn, eps );
        if ( tol > .05L * std::max( std::abs( want ), .1L ) ) { vm::counter( "points_ill_conditioned" ); continue; }
        vm::event(); checked = true;
        if ( !( std::abs( got - want ) <= tol ) ) vm::fail( vm::fmt( "%s-response", rname( R ) ), "%s f=%.9Lg fs=%.9Lg Q=%.9Lg: %s has response (%.9Lg,%.9Lg) at f/fs=%.9Lg, the prototype has (%.9Lg,%.9Lg), tolerance %.3Lg", rname( R ), f, fs, Q, show( c ).c_str(), got.real(), got.imag(), fn, want.real(), want.imag(), tol );
    }
    if ( checked ) { vm::distinct( vm::mix( hashco( c ), uint64_t( R ) ) ); vm::sample( "%s f=%.6Lg fs=%.6Lg Q=%.6Lg -> %s", rname( R ), f, fs, Q, show( c ).c_str() ); }
}
template< FilterResponse R, class F, class S, class QT, class DB > void one( vm::Rng & g, DB d, F f, S fs, QT q )
{
    if ( !( f > 0 ) || !( ld( f ) < ld( fs ) / 2 ) || !( q > 0 ) ) return;
    auto bq = design<R>( d, f, fs, q ); using T = typename decltype( bq )::value_type;
    judge( R, coOf( bq ), bq.is_stable(), ld( T( f ) ), ld( T( fs ) ), ld( T( q ) ), std::max<ld>( std::numeric_limits<T>::epsilon(), std::numeric_limits<double>::epsilon() ), g );   // pi is given to double precision
}
template< FilterResponse R > void all( vm::Rng & g )
{
    double fs = rate( g ), f = fs * freqRatio( g ), q = g.p( .2 ) ? g.logu( 1e-3, 1e6 ) : quality( g, .05, 100, f / fs );
    one<R>( g, 0.0, f, fs, q ); one<R>( g, 0.0f, float( f ), float( fs ), float( q ) );
    int ifs = irate( g, 3, 100000 ), jf = ifreq( g, ifs ), iq = int( g.p( .1 ) ? g.i( 1, 5000 ) : g.i( 1, 12 ) );
    switch ( g.i( 0, 6 ) )
    {
        case 0: one<R>( g, 0, jf, ifs, iq ); break;
        case 1: one<R>( g, 0, jf, ifs, q ); break;
        case 2: one<R>( g, 0, jf, float( ifs ), iq ); break;
        case 3: one<R>( g, 0.0f, jf, ifs, float( q ) ); break;
        case 4: one<R>( g, 0, short( g.i( 1, 900 ) ), 2000L, 1 ); break;
        case 5: one<R>( g, 0, unsigned( jf ), unsigned( ifs ), unsigned( iq ) ); break;
        default: one<R>( g, 0, double( jf ), ifs, iq );
    }
    if ( g.p( .1 ) ) one<R>( g, 0.0L, ld( f ), ld( fs ), ld( q ) );
}
GROUP( lowpass, 3000, 100000 ) { all<FilterResponse::low_pass>( g ); }
GROUP( highpass, 3000, 100000 ) { all<FilterResponse::high_pass>( g ); }
GROUP( bandpass, 3000, 100000 ) { all<FilterResponse::band_pass>( g ); }
GROUP( bandstop, 3000, 100000 ) { all<FilterResponse::band_stop>( g ); }
VMON_MAIN
