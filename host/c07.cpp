// C07: fixed-point arithmetic against exact 128-bit integers; UBSan build decides undefined behaviour.
#include "fx.hpp"

template< class X > void pairop( long a, long b )
{
    using N = fmtinfo<X>;
    auto in = []( i128 v ) { return v >= N::lo && v <= N::hi; };
    const X x = mk<X>( a ), y = mk<X>( b );
    auto bad = [&]( char const * op, char const * how, long got, i128 want )
    {
        vm::fail( vm::fmt( "%s", op ), "%s: raw %ld %s raw %ld (%s) has raw %ld, exact result is raw %ld", N::name().c_str(), a, op, b, how, got, long( want ) );
    };
    auto both = [&]( char const * op, i128 want, X bin, X comp, X ret )
    {
        if ( bin.underlying_value() != (long)want ) bad( op, "binary", bin.underlying_value(), want );
        if ( comp.underlying_value() != (long)want ) bad( op, "compound assignment", comp.underlying_value(), want );
        if ( ret.underlying_value() != (long)want ) bad( op, "value of compound assignment", ret.underlying_value(), want );
        vm::event();
    };
    i128 s = (i128)a + b, d = (i128)a - b, p = fdiv( (i128)a * b, (i128)1 << N::f );
    if ( in( s ) ) { X c = x, r = ( c += y ); both( "+", s, x + y, c, r ); }
    if ( in( d ) ) { X c = x, r = ( c -= y ); both( "-", d, x - y, c, r ); }
    if ( in( p ) ) { X c = x, r = ( c *= y ); both( "*", p, x * y, c, r ); }
    if ( b != 0 )
    {
        i128 q = (i128)a * ( (i128)1 << N::f ) / b;
        if ( in( q ) ) { X c = x, r = ( c /= y ); both( "/", q, x / y, c, r ); }
    }
    if ( a != N::lo && ( -x ).underlying_value() != -a ) bad( "negate", "unary", ( -x ).underlying_value(), -a );
    if ( ( +x ).underlying_value() != a ) bad( "plus", "unary", ( +x ).underlying_value(), a );
    if ( x.underlying_value() != a || y.underlying_value() != b ) vm::fail( "operand-changed", "%s: raw %ld, raw %ld became %ld, %ld", N::name().c_str(), a, b, long( x.underlying_value() ), long( y.underlying_value() ) );
    if ( a == b )
    {   // the same object on both sides
        { X c = x; if ( in( s ) ) { c += c; if ( c.underlying_value() != (long)s ) bad( "+", "c += c", c.underlying_value(), s ); } }
        { X c = x; c -= c; if ( c.underlying_value() != 0 ) bad( "-", "c -= c", c.underlying_value(), 0 ); }
        { X c = x; if ( in( p ) ) { c *= c; if ( c.underlying_value() != (long)p ) bad( "*", "c *= c", c.underlying_value(), p ); } }
        { X c = x; i128 one = (i128)1 << N::f; if ( a && in( one ) ) { c /= c; if ( c.underlying_value() != (long)one ) bad( "/", "c /= c", c.underlying_value(), one ); } }
    }
}
// mixed operands: a representable number on one side behaves like the converted value
template< class X > void mixed( long a, long v )
{
    using N = fmtinfo<X>;
    auto in = []( i128 w ) { return w >= N::lo && w <= N::hi; };
    i128 b = (i128)v * ( (i128)1 << N::f );
    if ( !in( b ) ) return;
    const X x = mk<X>( a ); int iv = int( v ); double dv = double( v ); float fv = float( v );
    auto chk = [&]( char const * op, long got, i128 want ) { vm::event(); if ( got != (long)want ) vm::fail( vm::fmt( "mixed%s", op ), "%s: raw %ld %s %ld has raw %ld, exact result is raw %ld", N::name().c_str(), a, op, v, got, long( want ) ); };
    if ( in( a + b ) ) { chk( "+", ( x + iv ).underlying_value(), a + b ); chk( "+", ( dv + x ).underlying_value(), a + b ); chk( "+", ( x + fv ).underlying_value(), a + b ); }
    if ( in( a - b ) ) { chk( "-", ( x - iv ).underlying_value(), a - b ); X c = x; c -= dv; chk( "-", c.underlying_value(), a - b ); }
    if ( in( b - a ) ) { chk( "-", ( iv - x ).underlying_value(), b - a ); chk( "-", ( dv - x ).underlying_value(), b - a ); }
    i128 p = (i128)a * v;
    if ( in( p ) ) { chk( "*", ( x * iv ).underlying_value(), p ); chk( "*", ( dv * x ).underlying_value(), p ); X c = x; c *= iv; chk( "*", c.underlying_value(), p ); }
    if ( v ) { i128 q = (i128)a / v; if ( in( q ) ) { chk( "/", ( x / iv ).underlying_value(), q ); X c = x; c /= dv; chk( "/", c.underlying_value(), q ); } }
    if ( a ) { i128 q = b * ( (i128)1 << N::f ) / a; if ( in( q ) ) chk( "/", ( iv / x ).underlying_value(), q ); }
}
template< class X > struct All { static void run( vm::Rng & )
{
    for ( long a = -128; a <= 127; ++a ) { for ( long b = -128; b <= 127; ++b ) pairop<X>( a, b ); for ( long v = -128; v <= 127; ++v ) mixed<X>( a, v ); vm::distinct( vm::mix( fmtinfo<X>::f, a ) ); }
    vm::sample( "%s: all pairs", fmtinfo<X>::name().c_str() );
} };
template< class X > struct Some { static void run( vm::Rng & g )
{
    using N = fmtinfo<X>;
    for ( int k = 0; k < 4000; ++k )
    {
        long a = raw<X>( g ), b = g.p( .02 ) ? a : raw<X>( g );
        if ( g.p( .3 ) && b > 1 ) a = long( g.sgn() * g.u() * double( b ) * .9 );
        pairop<X>( a, b ); mixed<X>( a, g.i( -20, 20 ) ); 
        vm::distinct( vm::mix( vm::mix( N::f, a ), b ) );
    }
    vm::sample( "%s: sampled pairs", N::name().c_str() );
} };
// sequences of operations against an exact model, as in accumulations
template< class X > struct Seq { static void run( vm::Rng & g )
{
    using N = fmtinfo<X>;
    long m = raw<X>( g ); X x = mk<X>( m ); std::string t = vm::fmt( "%ld", m );
    for ( int k = 0; k < 200; ++k )
    {
        long b = raw<X>( g ); if ( g.p( .6 ) ) b = g.i( -8, 8 ) * ( N::f > 2 ? 1L << ( N::f - 2 ) : 1 ); if ( b < N::lo || b > N::hi ) b = 1;
        i128 r; int op = int( g.i( 0, 4 ) );
        if ( op == 0 ) r = (i128)m + b; else if ( op == 1 ) r = (i128)m - b; else if ( op == 2 ) r = fdiv( (i128)m * b, (i128)1 << N::f ); else if ( op == 3 ) { if ( !b ) continue; r = (i128)m * ( (i128)1 << N::f ) / b; } else r = -(i128)m;
        if ( r < N::lo || r > N::hi ) continue;
        X y = mk<X>( b );
        switch ( op ) { case 0: x += y; break; case 1: x -= y; break; case 2: x *= y; break; case 3: x /= y; break; default: x = -x; }
        m = long( r ); vm::event();
        if ( k < 12 ) t += vm::fmt( " %c %ld", "+-*/n"[op], b );
        if ( x.underlying_value() != m ) { vm::fail( "sequence", "%s after %s: raw %ld, exact %ld", N::name().c_str(), t.c_str(), long( x.underlying_value() ), m ); x = mk<X>( m ); }
    }
    vm::distinct( vm::strhash( t.c_str() ) );
    vm::sample( "%s %s", N::name().c_str(), t.c_str() );
} };
GROUP( all8, 8, 8 )       { onsplit<int8_t, All>( g, int( vm::st().idx ) ); }
GROUP( some16, 160, 6400 ) { onsplit<int16_t, Some>( g, int( vm::st().idx % 16 ) ); }
GROUP( some32, 320, 12800 ) { onsplit<int32_t, Some>( g, int( vm::st().idx % 32 ) ); }
GROUP( seq8, 400, 8000 )  { onsplit<int8_t, Seq>( g, int( vm::st().idx % 8 ) ); }
GROUP( seq16, 800, 16000 ) { onsplit<int16_t, Seq>( g, int( vm::st().idx % 16 ) ); }
GROUP( seq32, 1600, 32000 ) { onsplit<int32_t, Seq>( g, int( vm::st().idx % 32 ) ); }
VMON_MAIN
