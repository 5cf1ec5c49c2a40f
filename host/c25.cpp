// C25: decibel conversions and prewarping.
#include "vmon.hpp"
#include "dsp/filter-design.hpp"
#include <limits>
#include <type_traits>
typedef long double ld;
static const ld PIl = 3.14159265358979323846264338327950288L;
template< class T > void levels( vm::Rng & g )
{
    ld eps = std::numeric_limits<T>::epsilon(); double top = g.p( .2 ) ? ( sizeof( T ) == 4 ? 1e15 : 1e150 ) : 1e6; T a = T( g.logu( 1 / top, top ) ), b = T( g.p( .1 ) ? double( a ) * ( 1 + g.uni( -1e-3, 1e-3 ) ) : g.logu( 1 / top, top ) ), c = T( g.logu( 1e-3, 1e3 ) ); if ( g.p( .1 ) ) b = a; if ( g.p( .2 ) ) b = 1;
    auto p = dsp::dbP( a, b ); auto v = dsp::dbV( a, b ); if ( !( std::is_same<decltype( p ), T>::value ) ) vm::fail( "result-type", "dbP keeps the floating-point type" ); vm::event( 2 );
    ld lr = std::log10( ld( a ) / b ), t = 16 * eps * ( 1 + std::fabs( lr ) );
    if ( !vm::close( p, 10 * lr, 10 * t ) ) vm::fail( "dbP", "dbP( %.9Lg, %.9Lg ) is %.12Lg, expected %.12Lg", ld( a ), ld( b ), ld( p ), 10 * lr );
    if ( !vm::close( v, 20 * lr, 20 * t ) ) vm::fail( "dbV", "dbV( %.9Lg, %.9Lg ) is %.12Lg, expected %.12Lg", ld( a ), ld( b ), ld( v ), 20 * lr );
    if ( g.p( .3 ) ) { ld np = dsp::dbP( T( -a ), T( -b ) ), nv = dsp::dbV( T( -a ), T( -b ) ); vm::event( 2 ); if ( !vm::close( np, 10 * lr, 10 * t ) || !vm::close( nv, 20 * lr, 20 * t ) ) vm::fail( "dbP-negative", "dbP( %.9Lg, %.9Lg ) is %.12Lg and dbV %.12Lg, the ratio is %.12Lg", -ld( a ), -ld( b ), np, nv, ld( a ) / b ); }
    if ( g.p( .05 ) ) { ld z = dsp::dbP( T( 0 ), b ), zv = dsp::dbV( T( 0 ), b ); vm::event(); if ( !( std::isinf( z ) && z < 0 && std::isinf( zv ) && zv < 0 ) ) vm::fail( "dbP-zero", "dbP( 0, %.9Lg ) is %.9Lg and dbV %.9Lg", ld( b ), z, zv ); }
    // levels of products add
    ld s = ld( dsp::dbP( T( a * c ), b ) ), s2 = ld( dsp::dbP( c, T( 1 ) ) ); if ( !vm::close( s, ld( p ) + s2, 400 * eps * ( 1 + std::fabs( lr ) + std::fabs( s2 ) ) ) ) vm::fail( "dbP-adds", "dbP( %.9Lg x %.9Lg, %.9Lg ) is %.12Lg, the parts add to %.12Lg", ld( a ), ld( c ), ld( b ), s, ld( p ) + s2 );
    // factors
    T d = T( g.p( .2 ) ? double( g.i( -60, 60 ) ) : g.p( .2 ) ? g.uni( -1, 1 ) * ( sizeof( T ) == 4 ? 370 : 3000 ) : g.p( .1 ) ? g.uni( -1, 1 ) * g.logu( 1e-9, 1 ) : g.uni( -120, 120 ) ); auto fp = dsp::dbP_factor( d ); auto fv = dsp::dbV_factor( d ); vm::event( 2 ); ld wp = std::pow( 10.0L, std::fabs( ld( d ) ) / 10 ), wv = std::pow( 10.0L, std::fabs( ld( d ) ) / 20 ), tf = 8 * eps * ( 2 + std::fabs( ld( d ) ) );
    if ( !vm::close( fp, wp, tf * wp ) ) vm::fail( "dbP_factor", "dbP_factor( %.9Lg ) is %.12Lg, expected %.12Lg", ld( d ), ld( fp ), wp );
    if ( !vm::close( fv, wv, tf * wv ) ) vm::fail( "dbV_factor", "dbV_factor( %.9Lg ) is %.12Lg, expected %.12Lg", ld( d ), ld( fv ), wv );
    ld back = dsp::dbP( T( fp ), T( 1 ) ), backv = dsp::dbV( T( fv ), T( 1 ) ), ad = std::fabs( ld( d ) ); ld tb = 100 * eps * ( 2 + ad );
    if ( !vm::close( back, ad, tb ) || !vm::close( backv, ad, tb ) ) vm::fail( "factor-level-roundtrip", "level %.9Lg dB comes back as %.12Lg (power), %.12Lg (voltage)", ld( d ), back, backv );
    vm::distinct( vm::hashd( vm::hashd( sizeof( T ), double( a ) ), double( d ) ) ); vm::sample( "dbP( %.6Lg, %.6Lg ) = %.9Lg; dbV_factor( %.6Lg ) = %.9Lg", ld( a ), ld( b ), ld( p ), ld( d ), ld( fv ) );
}
template< class I > void ints( vm::Rng & g )
{
    I a = I( g.i( 1, 120 ) ), b = I( g.i( 1, 120 ) ), d = I( g.i( std::is_signed<I>::value ? -60 : 0, 60 ) ); ld lr = std::log10( ld( a ) / b ); vm::event( 4 );
    auto p = dsp::dbP( a, b ); auto v = dsp::dbV( a, b ); if ( !( std::is_floating_point<decltype( p )>::value && std::is_floating_point<decltype( v )>::value ) ) vm::fail( "result-type", "levels of integers are floating-point" );
    if ( !vm::close( p, 10 * lr, 1e-4L ) || !vm::close( v, 20 * lr, 2e-4L ) ) vm::fail( "integer-level", "dbP( %ld, %ld ) is %.9Lg, dbV %.9Lg, expected %.9Lg", long( a ), long( b ), ld( p ), ld( v ), 10 * lr );
    if constexpr( std::is_signed<I>::value )
    {
        ld fp = dsp::dbP_factor( d ), fv = dsp::dbV_factor( d ), w = std::pow( 10.0L, std::fabs( ld( d ) ) / 10 );
        if ( !vm::close( fp, w, 1e-4L * w ) || !vm::close( fv, std::sqrt( w ), 1e-4L * w ) ) vm::fail( "integer-factor", "dbP_factor( %ld ) is %.9Lg, dbV_factor %.9Lg, expected %.9Lg and %.9Lg", long( d ), fp, fv, w, std::sqrt( w ) );
    }
    vm::distinct( vm::mix( vm::mix( uint64_t( a ), uint64_t( b ) ), uint64_t( d + 100 ) + sizeof( I ) * 1000 ) );
}
template< class P, class Q > void warp( P f, Q fs )
{
    auto w = dsp::prewarp( f, fs ); using T = std::common_type_t<float, P, Q>; if ( !( std::is_same<decltype( w ), T>::value ) ) vm::fail( "result-type", "prewarp result type" ); vm::event();
    ld x = PIl * ld( T( f ) ) / ld( T( fs ) ), want = std::tan( x ), eps = std::max<ld>( std::numeric_limits<T>::epsilon(), std::numeric_limits<double>::epsilon() );
    if ( x > PIl * .4999999L ) return;
    ld cond = x == 0 ? 1 : 1 + 2 * x / std::sin( 2 * x ); if ( !vm::close( w, want, 8 * eps * cond * want ) ) vm::fail( "prewarp", "prewarp( %.9Lg, %.9Lg ) is %.12Lg, tan is %.12Lg", ld( f ), ld( fs ), ld( w ), want );
    vm::distinct( vm::hashd( vm::hashd( sizeof( T ), double( f ) ), double( fs ) ) );
}
// levels of two types
template< class P, class Q > void pair( P a, Q b )
{
    using U = std::common_type_t<float, P>; ld lr = std::log10( ld( a ) / ld( b ) ), eps = std::max<ld>( std::numeric_limits<U>::epsilon(), std::is_floating_point<Q>::value ? std::numeric_limits<U>::epsilon() : 0 ), t = 32 * eps * ( 1 + std::fabs( lr ) ); ld v = dsp::dbV( a, b ), p = dsp::dbP( a, b ); vm::event( 2 );
    if ( !vm::close( v, 20 * lr, 20 * t ) || !vm::close( p, 10 * lr, 10 * t ) ) vm::fail( "mixed-level", "dbP( %.9Lg, %.9Lg ) of a %s of %zu bytes and a %s of %zu is %.9Lg, dbV %.9Lg, expected %.9Lg and %.9Lg", ld( a ), ld( b ), std::is_integral<P>::value ? "whole number" : "floating-point number", sizeof( P ), std::is_integral<Q>::value ? "whole number" : "floating-point number", sizeof( Q ), p, v, 10 * lr, 20 * lr );
    vm::distinct( vm::mix( vm::hashd( vm::hashd( sizeof( P ), double( a ) ), double( b ) ), sizeof( Q ) ) );
}
GROUP( mixed, 3000, 100000 )
{
    double x = g.p( .5 ) ? g.logu( 1e-6, 1e6 ) : g.uni( .1, 9.9 ), y = g.p( .5 ) ? g.logu( 1e-6, 1e6 ) : double( g.i( 1, 99 ) ) / 4; int n = int( g.p( .5 ) ? g.i( 1, 12 ) : g.i( 1, 100000 ) ), m = int( g.i( 1, 120 ) );
    pair( n, x ); pair( n, float( x ) ); pair( short( m ), y ); pair( 1, y ); pair( long( n ), float( y ) ); pair( unsigned( n ), x ); pair( (signed char)( m ), x ); pair( (unsigned char)( m ), float( y ) );
    pair( x, n ); pair( float( x ), n ); pair( y, short( m ) ); pair( float( x ), y ); pair( x, float( y ) ); pair( x, 1 ); pair( ld( x ), y ); pair( x, unsigned( n ) ); pair( n, short( m ) ); pair( long( n ), m ); pair( -n, -x );
}
GROUP( lvd, 5000, 200000 ) { levels<double>( g ); }
GROUP( lvf, 5000, 200000 ) { levels<float>( g ); }
GROUP( integers, 2000, 50000 ) { ints<int>( g ); ints<short>( g ); ints<long>( g ); ints<unsigned>( g ); ints<signed char>( g ); }
GROUP( warps, 5000, 200000 )
{
    double fs = g.p( .5 ) ? g.logu( 1e-3, 1e7 ) : double( g.i( 1, 200000 ) ), f = fs * ( g.p( .2 ) ? g.logu( 1e-7, .49 ) : g.p( .2 ) ? .5 - g.logu( 1e-5, .4 ) : g.uni( 0, .4999 ) ); warp( f, fs ); warp( float( f ), float( fs ) ); warp( 0, fs );
    int n = int( g.i( 3, 50000 ) ), k = int( g.i( 0, ( n - 1 ) / 2 ) ); warp( k, n ); warp( long( k ), unsigned( n ) ); warp( short( k % 1000 ), 2001 ); warp( k, double( n ) ); warp( float( k ), n );
    double f2 = f + ( fs / 2 - f ) * g.uni( .01, .99 ); vm::event(); if ( f2 < fs * .499999 && !( dsp::prewarp( f2, fs ) > dsp::prewarp( f, fs ) ) && f2 > f * ( 1 + 1e-12 ) ) vm::fail( "prewarp-increasing", "prewarp at %.9g is not larger than at %.9g (fs=%.9g)", f2, f, fs );
}
VMON_MAIN
