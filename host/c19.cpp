// C19: shelving and peaking designs deliver the requested gain.
#include "design.hpp"

static ld dB( ld h ) { return 20 * std::log10( h ); }
template< FilterResponse R, class T > void one( vm::Rng & g, T d, T f, T fs, T q )
{
    if ( !( f > 0 ) || !( f < fs / 2 ) ) return;
    ld eps = std::max<ld>( std::numeric_limits<T>::epsilon(), std::numeric_limits<double>::epsilon() ), fr = ld( f ) / fs, K = std::tan( PIl * fr ), gain = std::pow( 10.0L, ld( d ) / 20 );
    auto bq = dsp::make_biquad( dsp::biquad_design<R>( d, f, fs, q ) ), inv = dsp::make_biquad( dsp::biquad_design<R>( T( -d ), f, fs, q ) ); vm::event( 2 );
    Co c = coOf( bq ), ci = coOf( inv ); Proto p = proto( R, d, q ), pi = proto( R, -d, q ); Co ideal = coproto( p, K );
    auto what = [&] { return vm::fmt( "%s %.9g dB f=%.9g fs=%.9g Q=%.9g: %s", rname( R ), double( d ), double( f ), double( fs ), double( q ), show( c ).c_str() ); };
    if ( 1 - maxpole( ideal ) > poleMargin( ideal, eps ) ) { if ( !bq.is_stable() || !( maxpole( c ) < 1 ) ) vm::fail( "design-unstable", "%s has poles of magnitude %.9Lg, reported %s", what().c_str(), maxpole( c ), bq.is_stable() ? "stable" : "not stable" ); }
    else vm::counter( "stability_within_rounding" );
    // 0.1% of the voltage factor covers rounding of 10^x in the type
    ld vt = 8 * eps * ( 2 + std::fabs( dB( gain ) ) ); bool peak = R == FilterResponse::peak_band_eq, low = R == FilterResponse::low_shelf, ok = false;
    auto at = [&]( ld fn, ld want, const char * where )
    {
        ld tol = Htol( p, fr, fn, eps ) + vt * want; if ( tol > .02L * want ) { vm::counter( "points_ill_conditioned" ); return; }
        ld got = std::abs( H( c, fn ) ); vm::event(); ok = true;
        if ( !vm::close( got, want, tol ) ) vm::fail( vm::fmt( "%s-gain-%s", rname( R ), where ), "%s has gain %.9Lg dB at %s, expected %.9Lg dB", what().c_str(), dB( got ), where, dB( want ) );
    };
    at( 0, low ? gain : 1, "DC" ); at( .5L, R == FilterResponse::high_shelf ? gain : 1, "Nyquist" );
    if ( peak ) at( fr, gain, "centre" );
    else { ld V = std::max( gain, 1 / gain ), mean = std::sqrt( ( 1 + V * V ) / 2 ); at( fr, gain >= 1 ? mean : 1 / mean, "the shelf frequency" ); }
    // monotonic shelves; a peaking equaliser rises to its centre and falls again
    ld prev = -1, slack = 0; int dir = ( d > 0 ) == low ? -1 : 1;
    for ( int k = 0; k <= 24; ++k )
    {
        ld fn = peak ? ( k <= 12 ? fr * k / 12 : fr + ( .5L - fr ) * ( k - 12 ) / 12 ) : k < 12 ? fr * k / 12 * 1.5L : .5L * ( k - 12 ) / 12; if ( !peak && k >= 12 && fn < fr * 1.5L ) continue; if ( fn > .5L ) continue;
        ld tol = Htol( p, fr, fn, eps ) + vt; lc h = H( c, fn ), hi = H( ci, fn ), want = Hproto( p, K, fn ); ld m = std::abs( h ); int way = peak ? ( ( d > 0 ) == ( k <= 12 ) ? 1 : -1 ) : dir;
        ld mw = std::abs( want ); if ( tol > .02L * mw || Htol( pi, fr, fn, eps ) > .02L / mw ) { prev = -1; continue; }
        vm::event();
        if ( prev >= 0 && way * ( m - prev ) < -( tol + slack ) * 2 ) vm::fail( vm::fmt( "%s-monotonic", rname( R ) ), "%s: magnitude goes from %.12Lg to %.12Lg at f/fs=%.9Lg", what().c_str(), prev, m, fn );
        if ( !( std::abs( h * hi - lc( 1 ) ) <= 2 * ( tol / m + Htol( pi, fr, fn, eps ) * m + 2 * vt ) ) ) vm::fail( vm::fmt( "%s-inverse", rname( R ) ), "%s: response of the opposite gain is not its inverse at f/fs=%.9Lg: product (%.9Lg,%.9Lg)", what().c_str(), fn, ( h * hi ).real(), ( h * hi ).imag() );
        if ( peak && !( std::abs( h - want ) <= tol * 2 + vt * m ) ) vm::fail( "peak_band_eq-response", "%s: response (%.9Lg,%.9Lg) at f/fs=%.9Lg, the prototype of that Q has (%.9Lg,%.9Lg)", what().c_str(), h.real(), h.imag(), fn, want.real(), want.imag() );
        prev = m; slack = tol;
    }
    if ( ok ) { vm::distinct( hashco( c ) ); vm::sample( "%s", what().c_str() ); }
}
// mixed argument types: the design is made in their common type, at least float
template< FilterResponse R, class D, class F, class S, class Q > void mixed( D d, F f, S fs, Q q )
{
    using T = std::common_type_t<float, D, F, S, Q>; auto c = dsp::biquad_design<R>( d, f, fs, q ); using V = typename decltype( c )::value_type; vm::event();
    if ( !std::is_same<V, T>::value ) vm::fail( "result-type", "%s: the result type is not the common type of the arguments, at least float (%zu for %zu bytes)", rname( R ), sizeof( V ), sizeof( T ) );
    Co a = coOf( dsp::make_biquad( c ) ), b = coOf( dsp::make_biquad( dsp::biquad_design<R>( T( d ), T( f ), T( fs ), T( q ) ) ) ); ld s = 8 * std::numeric_limits<T>::epsilon() * ( std::fabs( b.b0 ) + std::fabs( b.b1 ) + std::fabs( b.b2 ) + 3 );
    if ( !vm::close( a.b0, b.b0, s ) || !vm::close( a.b1, b.b1, s ) || !vm::close( a.b2, b.b2, s ) || !vm::close( a.a1, b.a1, s ) || !vm::close( a.a2, b.a2, s ) )
        vm::fail( "mixed-arguments", "%s %.12Lg dB %.12Lg/%.12Lg Q=%.12Lg in mixed types gives %s, in their common type %s", rname( R ), ld( d ), ld( f ), ld( fs ), ld( q ), show( a ).c_str(), show( b ).c_str() );
}
template< FilterResponse R > void all( vm::Rng & g )
{
    double fs = rate( g ), f = fs * freqRatio( g ), d = g.p( .1 ) ? 0 : g.p( .2 ) ? double( g.i( -24, 24 ) ) : g.p( .07 ) ? 20.0 * double( g.i( -4, 4 ) ) : g.p( .2 ) ? g.uni( -140, 140 ) : g.uni( -40, 40 ), q = g.p( .2 ) ? g.logu( 1e-3, 1e5 ) : quality( g, .1, 30, f / fs, d );
    one<R, double>( g, d, f, fs, q ); one<R, float>( g, float( d ), float( f ), float( fs ), float( q ) ); if ( g.p( .1 ) ) one<R, ld>( g, d, f, fs, q );
    {
        int ifs = irate( g, 3, 100000 ), jf = ifreq( g, ifs ), iq = int( g.i( 1, 6 ) ), id = int( g.i( -20, 20 ) ); double dq = g.logu( .1, 30 ), dd = g.uni( -40, 40 ); float sf = float( jf ), sfs = float( ifs ), sq = float( dq );
        switch ( g.i( 0, 8 ) )
        {
            case 0: mixed<R>( dd, jf, ifs, iq ); break;
            case 1: mixed<R>( dd, sf, sfs, sq ); break;
            case 2: mixed<R>( id, sf, double( ifs ), sq ); break;
            case 3: mixed<R>( float( dd ), double( jf ) + .3, ifs + 1, iq ); break;
            case 4: mixed<R>( id, jf, ifs, dq ); break;
            case 5: mixed<R>( short( id ), unsigned( jf ), long( ifs ), iq ); break;
            case 6: mixed<R>( ld( dd ), sf, sfs, dq ); break;
            case 7: mixed<R>( float( dd ), jf, ifs, iq ); break;
            default: mixed<R>( dd, jf, sfs, short( iq ) );
        }
    }
    if ( g.p( .5 ) )   // integer arguments compute in float
    {
        int ifs = irate( g, 3, 100000 ), jf = ifreq( g, ifs ), iq = int( g.i( 1, 6 ) ), id = int( g.i( -20, 20 ) );
        Co a = coOf( dsp::make_biquad( dsp::biquad_design<R>( id, jf, ifs, iq ) ) ), b = coOf( dsp::make_biquad( dsp::biquad_design<R>( float( id ), float( jf ), float( ifs ), float( iq ) ) ) ); vm::event( 2 );
        ld s = 1e-5L * ( std::fabs( b.b0 ) + std::fabs( b.b1 ) + std::fabs( b.b2 ) + 3 );
        if ( !vm::close( a.b0, b.b0, s ) || !vm::close( a.b1, b.b1, s ) || !vm::close( a.b2, b.b2, s ) || !vm::close( a.a1, b.a1, s ) || !vm::close( a.a2, b.a2, s ) )
            vm::fail( "integer-arguments", "%s with integers %d dB %d/%d Q=%d gives %s, with the same float values %s", rname( R ), id, jf, ifs, iq, show( a ).c_str(), show( b ).c_str() );
    }
}
GROUP( lowshelf, 3000, 100000 ) { all<FilterResponse::low_shelf>( g ); }
GROUP( highshelf, 3000, 100000 ) { all<FilterResponse::high_shelf>( g ); }
GROUP( peaking, 3000, 100000 ) { all<FilterResponse::peak_band_eq>( g ); }
VMON_MAIN
