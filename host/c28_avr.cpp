// The microcontroller branches of include/std, compiled for the host. No standard header may be
// included here; results are handed to c28.cpp through plain functions.
#ifndef __AVR
# define __AVR 1
#endif
#define std20 avr20            // keep these templates apart from the desktop ones
#include "std/algorithm.hpp"
#include "std/complex.hpp"
#include "std/cstdint.hpp"
#include "std/limits.hpp"
#include "std/type_traits.hpp"
#include "std/tuple.hpp"
#include "std/utility.hpp"
#include "c28.hpp"
typedef __SIZE_TYPE__ Size;
namespace {
template< class T, bool = avr20::numeric_limits<T>::is_integer > struct Int { static void get( Lim & l ) { l.digits = avr20::numeric_limits<T>::digits; l.lo = (long long)avr20::numeric_limits<T>::min(); l.hi = (unsigned long long)avr20::numeric_limits<T>::max(); } };
template< class T > struct Int<T, false> { static void get( Lim & ) {} };
template< class T > Lim lim() { using L = avr20::numeric_limits<T>; Lim l = { L::is_signed, L::is_integer, avr20::is_integral<T>::value, avr20::is_integral_v<T>, avr20::is_signed<T>::value, avr20::is_signed_v<T>, 0, 0, 0 }; Int<T>::get( l ); return l; }
template< class A, class B > struct eq { enum { v = 0 }; }; template< class A > struct eq<A, A> { enum { v = 1 }; };
struct S {};
int bad;
template< class Got, class Want > void is( int line ) { if ( !eq<Got, Want>::v && !bad ) bad = line; }
void yes( bool b, int line ) { if ( !b && !bad ) bad = line; }
template< class T, class = avr20::enable_if_t<avr20::is_integral_v<T>> > int which( T ) { return 1; }
template< class T, class = avr20::enable_if_t<!avr20::is_integral_v<T>>, int = 0 > int which( T ) { return 2; }
#define IS( ... ) is<__VA_ARGS__>( __LINE__ )
template< class T > void removes()
{
    using namespace avr20;
    IS( remove_reference_t<T>, T ); IS( remove_reference_t<T &>, T ); IS( remove_reference_t<T &&>, T ); IS( remove_reference_t<T const &>, T const ); IS( remove_reference_t<T volatile &&>, T volatile ); IS( remove_reference_t<T *>, T * );
    IS( remove_const_t<T>, T ); IS( remove_const_t<T const>, T ); IS( remove_const_t<T volatile>, T volatile ); IS( remove_const_t<T const volatile>, T volatile ); IS( remove_const_t<T const *>, T const * ); IS( remove_const_t<T const &>, T const & ); IS( remove_const_t<T * const>, T * );
    IS( remove_volatile_t<T>, T ); IS( remove_volatile_t<T volatile>, T ); IS( remove_volatile_t<T const>, T const ); IS( remove_volatile_t<T const volatile>, T const ); IS( remove_volatile_t<T volatile *>, T volatile * ); IS( remove_volatile_t<T * volatile>, T * );
    IS( remove_cv_t<T>, T ); IS( remove_cv_t<T const>, T ); IS( remove_cv_t<T volatile>, T ); IS( remove_cv_t<T const volatile>, T ); IS( remove_cv_t<T const volatile &>, T const volatile & ); IS( typename remove_cv<T const>::type, T ); IS( typename remove_reference<T &>::type, T );
    yes( is_same<T, T>::value && is_same_v<T, T> && !is_same_v<T, T const> && !is_same<T, T &>::value && !is_same_v<T, T *>, __LINE__ );
    IS( enable_if_t<true, T>, T ); IS( typename enable_if<true, T>::type, T ); IS( enable_if_t<true>, void );
}
struct I { int v; };
Size sum( std::initializer_list<I> il, int * out ) { Size n = 0; for ( auto const & x : il ) out[n++] = x.v; if ( n != il.size() || il.begin() + n != il.end() || std::begin( il ) != il.begin() || std::end( il ) != il.end() ) return 999; return n; }
}
Lim avr_lim( int k ) { switch ( k ) { case 0: return lim<__INT8_TYPE__>(); case 1: return lim<__UINT8_TYPE__>(); case 2: return lim<__INT16_TYPE__>(); case 3: return lim<__UINT16_TYPE__>(); case 4: return lim<__INT32_TYPE__>(); case 5: return lim<__UINT32_TYPE__>(); case 6: return lim<__INT64_TYPE__>(); case 7: return lim<__UINT64_TYPE__>(); case 8: return lim<float>(); default: return lim<double>(); } }
int avr_traits()
{
    using namespace avr20; bad = 0; removes<int>(); removes<char>(); removes<double>(); removes<S>(); removes<int *>(); removes<unsigned long>();
    IS( decltype( avr20::move( bad ) ), int && ); int i = 0; int const c = 0; IS( decltype( avr20::move( c ) ), int const && ); IS( decltype( avr20::move( 3 ) ), int && ); yes( &static_cast<int const &>( avr20::move( i ) ) == &i, __LINE__ );
    using five = integral_constant<int, 5>; yes( five::value == 5 && five()() == 5 && int( five() ) == 5, __LINE__ ); IS( five::value_type, int ); IS( five::type, five ); yes( true_type::value && !false_type::value, __LINE__ );
    yes( which( 1 ) == 1 && which( 1.0 ) == 2 && which( 1.0f ) == 2, __LINE__ ); yes( sizeof( avr20::int8_t ) == 1 && sizeof( avr20::int16_t ) == 2 && sizeof( avr20::int32_t ) == 4 && sizeof( avr20::int64_t ) == 8, __LINE__ ); yes( avr20::int8_t( -1 ) < 0 && avr20::int16_t( -1 ) < 0 && avr20::int32_t( -1 ) < 0 && avr20::int64_t( -1 ) < 0, __LINE__ );
    return bad;
}
namespace {
template< class T > bool bits( T a, T b ) { return __builtin_memcmp( &a, &b, sizeof( T ) == 16 ? 10 : sizeof( T ) ) == 0; }
template< class T > bool holds( avr20::complex<T> const & z, T re, T im ) { return bits( z.real(), re ) && bits( z.imag(), im ); }
template< class T, class U > int complexes( T a, T b, U c, U d )
{
    using Z = avr20::complex<T>; using Y = avr20::complex<U>; bad = 0; IS( typename Z::value_type, T ); IS( decltype( Z().real() ), T ); IS( decltype( Z().imag() ), T );
    Z const o; yes( holds( o, T(), T() ), __LINE__ ); Z const r( a ); yes( holds( r, a, T() ), __LINE__ ); Z const z( a, b ); yes( holds( z, a, b ), __LINE__ ); Z const i = a; yes( holds( i, a, T() ), __LINE__ );
    Z const e{ a, b }; yes( holds( e, a, b ), __LINE__ ); Z k( z ); yes( holds( k, a, b ), __LINE__ ); Y const y( c, d ); Z const w( y ); yes( holds( w, T( c ), T( d ) ), __LINE__ ); Z const v = y; yes( holds( v, T( c ), T( d ) ), __LINE__ );
    k.real( b ); yes( holds( k, b, b ), __LINE__ ); k.imag( a ); yes( holds( k, b, a ), __LINE__ ); k.imag( T() ); yes( holds( k, b, T() ), __LINE__ );
    Z p, q( b, a ); yes( &( p = z ) == &p && holds( p, a, b ) && holds( z, a, b ), __LINE__ ); yes( &( p = b ) == &p && holds( p, b, T() ), __LINE__ ); yes( &( p = y ) == &p && holds( p, T( c ), T( d ) ) && holds( y, c, d ), __LINE__ );
    p = q = z; yes( holds( p, a, b ) && holds( q, a, b ), __LINE__ ); Z & self = p; p = self; yes( holds( p, a, b ), __LINE__ ); ( p = y ).imag( a ); yes( holds( p, T( c ), a ), __LINE__ ); q = a; yes( holds( p, T( c ), a ) && holds( q, a, T() ), __LINE__ );
    Z zs[3]; zs[1] = z; yes( holds( zs[0], T(), T() ) && holds( zs[1], a, b ) && holds( zs[2], T(), T() ), __LINE__ ); avr20::swap( zs[0], zs[1] ); yes( holds( zs[0], a, b ) && holds( zs[1], T(), T() ), __LINE__ );
    return bad;
}
}
int avr_complex( int k, double a, double b, double c, double d ) { switch ( k ) { case 0: return complexes( a, b, float( c ), float( d ) ); case 1: return complexes( float( a ), float( b ), c, d ); case 2: return complexes( a, b, c, d ); case 3: return complexes<long double, double>( a, b, c, d ); default: return complexes( float( a ), float( b ), float( c ), float( d ) ); } }
Tracked::Tracked( int v_ ) : v( v_ ) {} Tracked::Tracked( Tracked && o ) : v( o.v ), copies( o.copies ), moves( o.moves + 1 ) { o.v = -1; } Tracked::Tracked( Tracked const & o ) : v( o.v ), copies( o.copies + 1 ), moves( o.moves ) {}
Tracked & Tracked::operator=( Tracked && o ) { v = o.v; copies = o.copies; moves = o.moves + 1; if ( &o != this ) o.v = -1; return *this; } Tracked & Tracked::operator=( Tracked const & o ) { v = o.v; copies = o.copies + 1; moves = o.moves; return *this; }
void avr_swap( Tracked & a, Tracked & b ) { avr20::swap( a, b ); }
void avr_swap( int & a, int & b ) { avr20::swap( a, b ); }
void avr_swap( long long & a, long long & b ) { avr20::swap( a, b ); }
void avr_swap( double & a, double & b ) { avr20::swap( a, b ); }
int * avr_copy( int const * f, int const * l, int * d ) { return avr20::copy( f, l, d ); }
void avr_fill( int * f, int * l, int v ) { avr20::fill( f, l, v ); }
bool avr_equal( int const * f, int const * l, int const * g ) { return avr20::equal( f, l, g ); }
bool avr_equal( int const * f, int const * l, int const * g, bool (*p)( int, int ) ) { return avr20::equal( f, l, g, p ); }
unsigned avr_list( int n, int a, int b, int c, int * out ) { switch ( n ) { case 0: { std::initializer_list<I> il; return il.size() ? 998 : unsigned( sum( il, out ) ); } case 1: return sum( { I{ a } }, out ); case 2: return sum( { I{ a }, I{ b } }, out ); default: return sum( { I{ a }, I{ b }, I{ c } }, out ); } }
