// C08: comparison is the numeric order.
#include "fx.hpp"

template< class X > void pair( long a, long b )
{
    using N = fmtinfo<X>;
    const X x = mk<X>( a ), y = mk<X>( b ); vm::event();
    auto chk = [&]( char const * op, bool got, bool want ) { if ( got != want ) vm::fail( vm::fmt( "cmp%s", op ), "%s: raw %ld %s raw %ld is %s", N::name().c_str(), a, op, b, got ? "true" : "false" ); };
    chk( "==", x == y, a == b ); chk( "!=", x != y, a != b ); chk( "<", x < y, a < b ); chk( "<=", x <= y, a <= b ); chk( ">", x > y, a > b ); chk( ">=", x >= y, a >= b );
    // against the same value as double, on either side
    double e = b * std::ldexp( 1.0, -N::f );
    chk( "==(double)", x == e, a == b ); chk( "!=(double)", x != e, a != b ); chk( "<(double)", x < e, a < b ); chk( "<=(double)", x <= e, a <= b ); chk( ">(double)", x > e, a > b ); chk( ">=(double)", x >= e, a >= b );
    chk( "(double)<", e < y, false ); chk( "(double)<", e < x, b < a ); chk( "(double)==", e == x, b == a ); chk( "(double)>=", e >= x, b >= a );
    if ( double( float( e ) ) == e ) { float f = float( e ); chk( "==(float)", x == f, a == b ); chk( "<(float)", x < f, a < b ); chk( "(float)>", f > x, b > a ); chk( "(float)!=", f != x, b != a ); }
    if ( b % ( 1L << N::f ) == 0 ) { int i = int( b / ( 1L << N::f ) ); chk( "==(int)", x == i, a == b ); chk( "<(int)", x < i, a < b ); chk( "(int)<=", i <= x, b <= a ); chk( ">(int)", x > i, a > b ); chk( "(int)!=", i != x, b != a ); chk( ">=(int)", x >= i, a >= b ); vm::counter( "integer_comparisons" ); }
    long d = a - b; if ( d >= N::lo && d <= N::hi ) chk( "difference", ( x - y ) > X( 0 ), a > b );
    if ( !( x.min() <= x && x <= x.max() && !( x < x.min() ) && !( x > x.max() ) ) ) vm::fail( "bounds", "%s: raw %ld outside min()..max()", N::name().c_str(), a );
    if ( x.underlying_value() != a || y.underlying_value() != b ) vm::fail( "operand-changed", "%s comparing changed raw %ld, %ld", N::name().c_str(), a, b );
}
template< class X > struct All { static void run( vm::Rng & ) { for ( long a = -128; a <= 127; ++a ) { for ( long b = -128; b <= 127; ++b ) pair<X>( a, b ); vm::distinct( vm::mix( fmtinfo<X>::f, a ) ); } vm::sample( "%s: all pairs", fmtinfo<X>::name().c_str() ); } };
template< class X > struct Some { static void run( vm::Rng & g )
{
    using N = fmtinfo<X>;
    for ( int k = 0; k < 3000; ++k )
    {
        long a = raw<X>( g ), b = g.p( .2 ) ? a : g.p( .3 ) ? std::min( N::hi, std::max( N::lo, a + g.i( -2, 2 ) ) ) : raw<X>( g );
        if ( N::f > 12 && g.p( .2 ) ) { long t = ( a >> 10 ) * 1024 + g.i( 0, 1023 ); b = std::min( N::hi, std::max( N::lo, t ) ); }
        pair<X>( a, b ); vm::distinct( vm::mix( vm::mix( N::f, a ), b ) );
    }
    vm::sample( "%s: sampled pairs", N::name().c_str() );
} };
GROUP( all8, 8, 8 )        { onsplit<int8_t, All>( g, int( vm::st().idx ) ); }
GROUP( some16, 160, 6400 ) { onsplit<int16_t, Some>( g, int( vm::st().idx % 16 ) ); }
GROUP( some32, 320, 12800 ) { onsplit<int32_t, Some>( g, int( vm::st().idx % 32 ) ); }
VMON_MAIN
