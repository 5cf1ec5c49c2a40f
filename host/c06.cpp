// C06: conversions to and from fixed point against exact scaling. Doubles carry every value of
// every format exactly (at most 31 bits), so the oracle needs no tolerance.
#include "fx.hpp"

// the fixed-point value nearest to v (ties: either neighbour), v scaled exactly in long double
template< class X > bool nearest( long got, long double v )
{
    long double s = v * (long double)( 1LL << fmtinfo<X>::f );
    return std::fabs( got - s ) <= 0.5L;
}
template< class X > void roundtrip( long r )
{
    using N = fmtinfo<X>; using T = typename X::rep;
    const double res = std::ldexp( 1.0, -N::f );
    X x = mk<X>( r ); vm::event();
    if ( x.underlying_value() != r ) vm::fail( "raw", "%s raw %ld reports %ld", N::name().c_str(), r, long( x.underlying_value() ) );
    double d = x.as_double();
    if ( d != r * res ) vm::fail( "as-double", "%s raw %ld shows %.17g, is %.17g", N::name().c_str(), r, d, r * res );
    if ( x.template as<double>() != r * res ) vm::fail( "as-double", "%s raw %ld as<double> %.17g, is %.17g", N::name().c_str(), r, double( x.template as<double>() ), r * res );
    if ( std::fabs( r ) < 16777216 && x.template as<float>() != float( r * res ) ) vm::fail( "as-float", "%s raw %ld as<float> %.9g, is %.17g", N::name().c_str(), r, double( x.template as<float>() ), r * res );
    if ( !( std::fabs( double( x.template as<float>() ) - r * res ) <= std::fabs( r * res ) * 1.3e-7 ) ) vm::fail( "as-float", "%s raw %ld as<float> %.9g, is %.17g", N::name().c_str(), r, double( x.template as<float>() ), r * res );
    X b( d );
    if ( b.underlying_value() != r ) vm::fail( "double-roundtrip", "%s raw %ld -> %.17g -> raw %ld", N::name().c_str(), r, d, long( b.underlying_value() ) );
    float f = float( d );
    if ( double( f ) == d ) { X c( f ); if ( c.underlying_value() != r ) vm::fail( "float-roundtrip", "%s raw %ld -> %.9g -> raw %ld", N::name().c_str(), r, double( f ), long( c.underlying_value() ) ); }
    // integers: truncation toward zero, whenever the target type can hold the value
    long q = r / ( 1L << N::f );
    if ( x.template as<int>() != q ) vm::fail( "as-int", "%s value %.17g as<int> %ld", N::name().c_str(), d, long( x.template as<int>() ) );
    if ( x.template as<long long>() != q ) vm::fail( "as-int", "%s value %.17g as<long long> %ld", N::name().c_str(), d, long( x.template as<long long>() ) );
    if ( q >= -128 && q <= 127 && x.template as<int8_t>() != q ) vm::fail( "as-int8", "%s value %.17g as<int8_t> %ld", N::name().c_str(), d, long( x.template as<int8_t>() ) );
    if ( q >= -32768 && q <= 32767 && x.template as<int16_t>() != q ) vm::fail( "as-int16", "%s value %.17g as<int16_t> %ld", N::name().c_str(), d, long( x.template as<int16_t>() ) );
    if ( r >= 0 && x.template as<unsigned>() != (unsigned)q ) vm::fail( "as-unsigned", "%s value %.17g as<unsigned> %ld", N::name().c_str(), d, long( x.template as<unsigned>() ) );
    num::to_rep<X> tr; num::from_rep<X> fr;
    if ( tr( x ) != r ) vm::fail( "to-rep", "%s raw %ld to_rep %ld", N::name().c_str(), r, long( tr( x ) ) );
    if ( fr( T( r ) ).underlying_value() != r ) vm::fail( "from-rep", "%s raw %ld from_rep %ld", N::name().c_str(), r, long( fr( T( r ) ).underlying_value() ) );
    num::from_value<X, T> fv;
    if ( fv( T( r ) ).underlying_value() != r ) vm::fail( "from-value", "%s raw %ld from_value %ld", N::name().c_str(), r, long( fv( T( r ) ).underlying_value() ) );
    X y( x ), z = X(); z = x;
    if ( y.underlying_value() != r || z.underlying_value() != r ) vm::fail( "copy", "%s raw %ld copies to %ld, assigns %ld", N::name().c_str(), r, long( y.underlying_value() ), long( z.underlying_value() ) );
    if ( x.underlying_value() != r ) vm::fail( "observer-changed", "%s raw %ld changed to %ld", N::name().c_str(), r, long( x.underlying_value() ) );
}
template< class X > void limits()
{
    using N = fmtinfo<X>;
    X x = X(); 
    if ( x.underlying_value() != 0 ) vm::fail( "value-initialised", "%s() has raw %ld", N::name().c_str(), long( x.underlying_value() ) );
    if ( x.min().underlying_value() != N::lo || x.max().underlying_value() != N::hi ) vm::fail( "limits", "%s min raw %ld max raw %ld", N::name().c_str(), long( x.min().underlying_value() ), long( x.max().underlying_value() ) );
    if ( X::fractional_digits != N::f || X::integer_digits != N::i || X::digits != std::numeric_limits<typename X::rep>::digits ) vm::fail( "digits", "%s digits %d %d %d", N::name().c_str(), X::digits, X::integer_digits, X::fractional_digits );
}
template< class X > struct All { static void run( vm::Rng & ) { limits<X>(); for ( long r = fmtinfo<X>::lo; r <= fmtinfo<X>::hi; ++r ) { roundtrip<X>( r ); if ( r % 8 == 0 ) vm::distinct( vm::mix( fmtinfo<X>::f, r ) ); } vm::sample( "%s: all values", fmtinfo<X>::name().c_str() ); } };
template< class X > struct Some { static void run( vm::Rng & g ) { limits<X>(); for ( int k = 0; k < 2000; ++k ) { long r = raw<X>( g ); roundtrip<X>( r ); vm::distinct( vm::mix( fmtinfo<X>::f, r ) ); } vm::sample( "%s: sampled values", fmtinfo<X>::name().c_str() ); } };

template< class X > struct FromFloat
{
    template< class S > static void one( S v )
    {
        using N = fmtinfo<X>;
        long double s = (long double)v * (long double)( 1LL << N::f );
        if ( !( s > N::lo - .5L && s < N::hi + .5L ) || s < N::lo || s > N::hi ) return;
        X x( v ); vm::event();
        if ( !nearest<X>( x.underlying_value(), v ) ) vm::fail( sizeof( S ) == 4 ? "from-float" : "from-double", "%s( %.17g ) has raw %ld, nearest is %.9Lg", N::name().c_str(), double( v ), long( x.underlying_value() ), s );
        X y = X(); y = v;
        if ( y.underlying_value() != x.underlying_value() ) vm::fail( "assign-converts", "%s = %.17g has raw %ld", N::name().c_str(), double( v ), long( y.underlying_value() ) );
        vm::distinct( vm::hashd( N::f, double( v ) ) );
    }
    static void run( vm::Rng & g )
    {
        using N = fmtinfo<X>; const double res = std::ldexp( 1.0, -N::f );
        for ( int k = 0; k < 1500; ++k )
        {
            double c = double( raw<X>( g ) ), o = g.pick( { 0.0, .25, .49, .499999999, .51, .75, 0.4999999999999999, .5000000001, -0.25, -.49, -.51 } );
            if ( g.p( .3 ) ) o = g.uni( -1, 1 );
            double v = ( c + o ) * res;
            one<double>( v ); one<float>( float( v ) ); one<double>( std::nextafter( ( c + .5 ) * res, -1e9 ) ); one<double>( std::nextafter( ( c + .5 ) * res, 1e9 ) );
            one<float>( std::nextafter( float( ( c + .5 ) * res ), -1e9f ) ); one<float>( std::nextafter( float( ( c + .5 ) * res ), 1e9f ) );
        }
        vm::sample( "%s from float and double", N::name().c_str() );
    }
};
template< class X > struct FromInt
{
    template< class S > static void one( long v )
    {
        using N = fmtinfo<X>;
        if ( v < (long)std::numeric_limits<S>::min() || ( v > 0 && (unsigned long)v > (unsigned long)std::numeric_limits<S>::max() ) ) return;
        i128 w = (i128)v * ( (i128)1 << N::f );
        if ( w < N::lo || w > N::hi ) return;
        X x = X( S( v ) ); vm::event();
        if ( x.underlying_value() != (long)w ) vm::fail( "from-integer", "%s( %ld as %zu byte %s ) has raw %ld, expected %ld", N::name().c_str(), v, sizeof( S ), std::is_signed<S>::value ? "signed" : "unsigned", long( x.underlying_value() ), long( w ) );
        X y = X(); y = S( v );
        if ( y.underlying_value() != (long)w ) vm::fail( "assign-integer", "%s = %ld has raw %ld, expected %ld", N::name().c_str(), v, long( y.underlying_value() ), long( w ) );
        vm::distinct( vm::mix( N::f * 77, v ) );
    }
    static void run( vm::Rng & g )
    {
        using N = fmtinfo<X>;
        for ( int k = 0; k < 600; ++k )
        {
            long v = k < 400 ? k - 200 : ( N::lo >> N::f ) + long( g.next() % uint64_t( ( N::hi - N::lo ) / ( 1L << N::f ) + 1 ) );
            one<int>( v ); one<long>( v ); one<int8_t>( v ); one<int16_t>( v ); one<uint8_t>( v ); one<uint16_t>( v ); one<unsigned>( v ); one<unsigned long>( v ); one<long long>( v );
        }
        one<int>( N::hi >> N::f ); one<int>( -( ( -N::lo ) >> N::f ) ); one<int>( ( N::hi >> N::f ) - 1 );
        vm::sample( "%s from integers", N::name().c_str() );
    }
};
#if IN_PART( 0 )
GROUP( all8, 8, 8 )       { onsplit<int8_t, All>( g, int( vm::st().idx ) ); }
#endif
#if IN_PART( 0 )
GROUP( all16, 16, 16 )    { onsplit<int16_t, All>( g, int( vm::st().idx ) ); }
#endif
#if IN_PART( 0 )
GROUP( some32, 64, 3200 ) { onsplit<int32_t, Some>( g, int( vm::st().idx % 32 ) ); }
#endif
#if IN_PART( 1 )
GROUP( flt8, 32, 160 )    { onsplit<int8_t, FromFloat>( g, int( vm::st().idx % 8 ) ); }
#endif
#if IN_PART( 1 )
GROUP( flt16, 64, 1600 )  { onsplit<int16_t, FromFloat>( g, int( vm::st().idx % 16 ) ); }
#endif
#if IN_PART( 1 )
GROUP( flt32, 128, 6400 ) { onsplit<int32_t, FromFloat>( g, int( vm::st().idx % 32 ) ); }
#endif
#if IN_PART( 2 )
GROUP( int8, 8, 80 )      { onsplit<int8_t, FromInt>( g, int( vm::st().idx % 8 ) ); }
#endif
#if IN_PART( 2 )
GROUP( int16, 16, 320 )   { onsplit<int16_t, FromInt>( g, int( vm::st().idx % 16 ) ); }
#endif
#if IN_PART( 2 )
GROUP( int32, 64, 1600 )  { onsplit<int32_t, FromInt>( g, int( vm::st().idx % 32 ) ); }
#endif
#if IN_PART( 0 )
VMON_MAIN
#endif
