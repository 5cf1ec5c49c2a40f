// Fixed-point formats and exact integer oracles shared by C06-C08.
#ifndef FX_HPP
#define FX_HPP
#include "vmon.hpp"
#include "num/fixed-point.hpp"
#include <limits>
#include <type_traits>
#include <utility>

typedef __int128 i128;
template< class T > const char * tname() { return sizeof( T ) == 1 ? "int8" : sizeof( T ) == 2 ? "int16" : "int32"; }
template< class X > struct fmtinfo;
template< class T, int I, int F > struct fmtinfo< num::fixed_point<T, I, F> >
{
    using rep = T; static constexpr int i = I, f = F;
    static constexpr long lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
    static std::string name() { return vm::fmt( "fixed_point<%s,%d,%d>", tname<T>(), I, F ); }
};
template< class X > X mk( long raw ) { return X( X::construct, typename X::rep( raw ) ); }
inline i128 fdiv( i128 a, i128 b ) { i128 q = a / b; if ( a % b != 0 && ( ( a < 0 ) != ( b < 0 ) ) ) --q; return q; }

// an interesting representation value
template< class X > long raw( vm::Rng & g )
{
    using N = fmtinfo<X>;
    switch ( g.i( 0, 7 ) )
    {
        case 0: return N::lo + g.i( 0, 3 );
        case 1: return N::hi - g.i( 0, 3 );
        case 2: return g.i( -3, 3 );
        case 3: { long p = 1L << g.i( 0, sizeof( typename X::rep ) * 8 - 2 ); long v = long( g.sgn() ) * ( p + g.i( -1, 1 ) ); return v < N::lo ? N::lo : v > N::hi ? N::hi : v; }
        case 4: { long v = g.i( -40, 40 ) * ( 1L << N::f ); return v < N::lo ? N::lo : v > N::hi ? N::hi : v; }
        case 5: { double m = std::exp( g.u() * std::log( double( N::hi ) ) ); return long( g.sgn() * m ); }
        default: return g.i( N::lo, N::hi );
    }
}
// every split of every width: FORALL( fn ) runs fn<format>( g )
template< class T, template<class> class Fn, int... I > void splits( vm::Rng & g, int which, std::integer_sequence<int, I...> )
{
    constexpr int D = std::numeric_limits<T>::digits;
    ( ( which == I ? Fn< num::fixed_point<T, I, D - I> >::run( g ) : void() ), ... );
}
template< class T, template<class> class Fn > void onsplit( vm::Rng & g, int which )
{
    splits<T, Fn>( g, which, std::make_integer_sequence<int, std::numeric_limits<T>::digits + 1>() );
}
#endif
