// C26: ranges enumerate exactly the promised arithmetic sequence.
#include "vmon.hpp"
#include <algorithm>
#include <array>
#include <deque>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <numeric>
#include <string>
#include <type_traits>
#include "core/range.hpp"
typedef long double ld;
using core::range; using core::indices;

static const size_t CAP = 3000;
template< class T > const char * tn()
{
    return std::is_same<T, double>::value ? "double" : std::is_same<T, float>::value ? "float" : std::is_same<T, long double>::value ? "long double" :
        std::is_unsigned<T>::value ? ( sizeof( T ) == 8 ? "u64" : sizeof( T ) == 4 ? "u32" : sizeof( T ) == 2 ? "u16" : "u8" ) : sizeof( T ) == 8 ? "i64" : sizeof( T ) == 4 ? "i32" : sizeof( T ) == 2 ? "i16" : "i8";
}
// read a range in one of several ways; every way must give the same values
template< class T, class R > std::vector<T> readall( R const & r, int how )
{
    std::vector<T> v;
    switch ( how )
    {
    case 0: for ( auto x : r ) { v.push_back( x ); if ( v.size() > CAP ) break; } break;
    case 1: { auto e = r.end(); for ( auto it = r.begin(); it != e; ++it ) { v.push_back( *it ); if ( v.size() > CAP ) break; } break; }
    case 2: { auto it = r.begin(); while ( !( it == r.end() ) ) { auto p = it.operator->(); v.push_back( *p ); it++; if ( v.size() > CAP ) break; } break; }
    case 3: { auto it = r.begin(); while ( it != r.end() ) { auto jt = it; v.push_back( *jt ); ++jt; it = jt; if ( v.size() > CAP ) break; } break; }      // through copies
    case 4: { auto a = r.begin(); auto b = r.begin(); while ( a != r.end() ) { v.push_back( *a ); ++a; if ( b != r.end() ) ++b; if ( v.size() > CAP ) break; } break; }  // two readers
    default: { for ( auto it = r.begin(); it != r.end(); ) { auto old = it++; v.push_back( *old ); if ( v.size() > CAP ) break; } }
    }
    return v;
}
template< class T, class R > void expect( R const & r, ld first, ld last, ld step, std::string const & what, int how )
{
    if ( !std::is_same< std::decay_t<decltype( *r.begin() )>, T >::value ) vm::fail( "value-type", "%s: the values are of another type than the common type of the arguments", what.c_str() );
    auto v = readall<T>( r, how ), again = readall<T>( r, ( how + 1 ) % 6 ); vm::event( v.size() + again.size() + 1 );
    if ( v != again ) vm::fail( "repeat", "%s gives another sequence when read again another way (%zu and %zu values, ways %d and %d)", what.c_str(), v.size(), again.size(), how, ( how + 1 ) % 6 );
    ld eps = std::is_floating_point<T>::value ? ld( std::numeric_limits<T>::epsilon() ) : 0;
    auto tol = [&]( size_t k ) { return 2 * eps * ( std::fabs( first ) + k * std::fabs( step ) ); };
    for ( size_t k = 0; k < v.size() && k <= CAP; ++k )
    {
        ld want = first + ld( k ) * step;
        if ( !vm::close( v[k], want, tol( k ) ) ) { vm::fail( "value", "%s: value %zu is %.12Lg, expected %.12Lg", what.c_str(), k, ld( v[k] ), want ); return; }
        if ( !( ld( v[k] ) < last ) ) { vm::fail( "beyond-end", "%s: value %zu = %.12Lg is not below the end", what.c_str(), k, ld( v[k] ) ); return; }
    }
    ld next = first + ld( v.size() ) * step;
    if ( v.size() <= CAP && next < last - tol( v.size() ) ) vm::fail( "stopped-early", "%s: stops after %zu values although %.12Lg is below the end", what.c_str(), v.size(), next );
}
template< class T > T any( vm::Rng & g, ld lo, ld hi ) { if constexpr ( std::is_floating_point<T>::value ) return T( g.uni( double( lo ), double( hi ) ) ); else return T( g.i( long( std::ceil( lo ) ), long( std::floor( hi ) ) ) ); }
template< class P, class Q > void unit( vm::Rng & g )
{
    using T = std::common_type_t<P, Q>; bool uns = std::is_unsigned<P>::value || std::is_unsigned<Q>::value, small = sizeof( P ) == 1 || sizeof( Q ) == 1;
    int kind = int( g.i( 0, 9 ) ); ld hi = small ? 120 : 30000;
    P a = kind < 3 ? P( 0 ) : any<P>( g, uns ? 0 : -hi, hi ); ld room = hi - ld( a ); Q b;
    if ( kind == 9 ) b = Q( a );                                                          // empty
    else if ( kind == 8 ) b = any<Q>( g, uns ? 0 : -hi, ld( a ) );                        // reversed
    else b = any<Q>( g, ld( a ), ld( a ) + std::min( room, ld( g.p( .3 ) ? 4 : 400 ) ) );
    ld al = ld( T( a ) ), bl = ld( T( b ) );
    auto what = vm::fmt( "range( %.9Lg, %.9Lg ) of %s and %s", ld( a ), ld( b ), tn<P>(), tn<Q>() );
    expect<T>( range( a, b ), al, bl, 1, what, int( g.i( 0, 5 ) ) );
    vm::distinct( vm::hashd( vm::hashd( sizeof( P ) * 16 + sizeof( Q ), double( al ) ), double( bl ) ) ); if ( kind > 4 && kind < 8 ) vm::sample( "%s", what.c_str() );
}
template< class P, class Q, class R > void stepped( vm::Rng & g )
{
    using T = std::common_type_t<P, Q, R>; bool uns = std::is_unsigned<T>::value || std::is_unsigned<P>::value || std::is_unsigned<Q>::value, small = sizeof( T ) == 1; ld hi = small ? 100 : sizeof( T ) == 2 ? 30000 : 1e6;
    int kind = int( g.i( 0, 9 ) ); P a = kind < 3 ? P( 0 ) : any<P>( g, uns ? 0 : -hi, hi );
    R s; if constexpr ( std::is_floating_point<R>::value ) { s = R( g.p( .4 ) ? 1.0 / double( g.i( 2, 20 ) ) : g.p( .3 ) ? g.i( 1, 16 ) / 8.0 : g.logu( 1e-3, 50 ) ); } else s = R( g.p( .5 ) ? g.i( 1, 9 ) : g.i( 1, small ? 20 : 1000 ) );
    if ( !( s > 0 ) ) return;
    ld span = ld( s ) * ( g.p( .4 ) ? double( g.i( 0, 6 ) ) : g.p( .5 ) ? g.uni( 0, 12 ) : g.uni( 0, 900 ) ); if ( kind == 9 ) span = -span; ld e = ld( a ) + span; if ( uns && e < 0 ) e = 0; if ( e > hi - ld( s ) ) e = hi - ld( s ); if ( e < -hi ) e = -hi; Q b = Q( std::is_floating_point<Q>::value ? e : std::floor( e ) );
    ld al = ld( T( a ) ), bl = ld( T( b ) ), sl = ld( T( s ) );
    auto what = vm::fmt( "range( %.9Lg, %.9Lg, %.9Lg ) of %s, %s and %s", ld( a ), ld( b ), ld( s ), tn<P>(), tn<Q>(), tn<R>() );
    expect<T>( range( a, b, s ), al, bl, sl, what, int( g.i( 0, 5 ) ) );
    vm::distinct( vm::hashd( vm::hashd( vm::hashd( sizeof( P ) * 16 + sizeof( Q ), double( al ) ), double( bl ) ), double( sl ) ) ); vm::sample( "%s", what.c_str() );
}
// bounds and steps anywhere in the type, up to its last value
template< class T > void wide( vm::Rng & g )
{
    using L = std::numeric_limits<T>; typedef __int128 W; const W lo = L::min(), hi = L::max(); auto rnd = [&]( W a, W b ) { return a + W( ( ( unsigned __int128 )( g.next() ) << 64 | g.next() ) % ( unsigned __int128 )( b - a + 1 ) ); };
    W n = g.i( 0, g.p( .3 ) ? 4 : 300 ), a = g.p( .3 ) ? lo : g.p( .3 ) ? hi - rnd( 0, std::min<W>( hi - lo, 2 * n + 3 ) ) : rnd( lo, hi ), b = g.p( .5 ) ? hi : g.p( .3 ) ? hi - rnd( 0, std::min<W>( 3, hi - lo ) ) : rnd( a, hi );
    W s = n ? ( b - a ) / n : hi - rnd( 0, std::min<W>( 5, hi - 1 ) ); s += rnd( -2, 2 ); if ( s > hi ) s = hi; if ( s < 1 || ( b - a ) / s > W( CAP ) - 9 ) return; if ( g.p( .05 ) ) std::swap( a, b );
    auto what = vm::fmt( "range( %.20Lg, %.20Lg, %.20Lg ) of %s", ld( a ), ld( b ), ld( s ), tn<T>() ); vm::counter( b + s > hi ? "next_step_beyond_type" : "next_step_within_type" );
    expect<T>( range( T( a ), T( b ), T( s ) ), ld( a ), ld( b ), ld( s ), what, int( g.i( 0, 5 ) ) ); if ( ( b - a ) < W( CAP ) - 9 ) expect<T>( range( T( a ), T( b ) ), ld( a ), ld( b ), 1, what + " by ones", int( g.i( 0, 5 ) ) );
    vm::distinct( vm::hashd( vm::hashd( vm::hashd( sizeof( T ) * 2 + L::is_signed, double( a ) ), double( b ) ), double( s ) ) ); vm::sample( "%s", what.c_str() );
}
// more steps than the mantissa of float holds
template< class T > void many( vm::Rng & g )
{
    T s = T( g.p( .5 ) ? 1 : g.p( .5 ) ? .5 : g.logu( .1, 10 ) ), a = T( -s * 16777216 ), b = T( s * ( 16777216 - double( g.i( 0, 1000 ) ) ) ); if ( sizeof( T ) > 4 && g.p( .5 ) ) { a = 0; b = s * 20000000; } ld n = ( ld( b ) - a ) / s, eps = std::numeric_limits<T>::epsilon(); unsigned long k = 0; ld prev = -std::numeric_limits<ld>::infinity(); bool bad = false;
    for ( auto x : range( a, b, s ) ) { ld want = ld( a ) + k * ld( s ); if ( !vm::close( x, want, 2 * eps * ( std::fabs( ld( a ) ) + k * ld( s ) ) ) || x < prev || !( x < b ) ) { bad = true; break; } prev = x; if ( ++k > n + 100 ) break; }
    vm::event( k ); vm::distinct( vm::hashd( sizeof( T ), double( s ) ) ); if ( bad || std::fabs( k - n ) > 2 * eps * n * 2 + 2 ) vm::fail( "many-steps", "range( %.12Lg, %.12Lg, %.12Lg ) of %s: %s value %lu, %.12Lg steps lie below the end", ld( a ), ld( b ), ld( s ), tn<T>(), bad ? "wrong" : "ended at", k, n );
}
template< class T > void unbounded( vm::Rng & g )
{
    bool uns = std::is_unsigned<T>::value; T a = any<T>( g, uns ? 0 : -500, 500 ); size_t n = g.p( .1 ) ? 5000 : size_t( g.i( 1, 600 ) ); bool st = g.p( .6 );
    T s = T( 1 ); if ( st ) { if constexpr ( std::is_floating_point<T>::value ) s = T( g.logu( .01, 100 ) ); else if ( sizeof( T ) >= 4 && g.p( .3 ) ) { s = T( g.i( 6, 100000 ) ); n = std::min<size_t>( n, 5000 ); } else s = T( g.i( 1, 5 ) ); }
    if ( sizeof( T ) == 2 ) n = std::min<size_t>( n, 5000 );
    ld eps = std::is_floating_point<T>::value ? ld( std::numeric_limits<T>::epsilon() ) : 0; auto r = range( a ); size_t k = 0;
    auto see = [&]( T x ) { ld want = ld( a ) + ld( k ) * ld( s ); vm::event(); if ( !vm::close( x, want, 2 * eps * ( std::fabs( ld( a ) ) + k * ld( s ) ) ) ) vm::fail( "unbounded-value", "range( %.9Lg ) step %.9Lg of %s: value %zu is %.12Lg, expected %.12Lg", ld( a ), ld( s ), tn<T>(), k, ld( x ), want ); };
    auto loop = [&]( auto const & rr ) { k = 0; if ( g.p( .5 ) ) { for ( auto x : rr ) { see( x ); if ( ++k == n ) break; } } else for ( auto it = rr.begin(); it != rr.end(); it++ ) { see( *it ); if ( ++k == n ) break; } if ( k != n ) vm::fail( "unbounded-ends", "range( %.9Lg ) step %.9Lg of %s ends after %zu values", ld( a ), ld( s ), tn<T>(), k ); };
    if ( st ) loop( r.step( s ) ); else loop( r );
    { T s0 = s; s = T( 1 ); n = std::min<size_t>( n, 40 ); loop( r ); s = s0; }              // the range step() was called on is unchanged
    vm::distinct( vm::hashd( vm::hashd( sizeof( T ) + n * 32, double( a ) ), double( s ) ) );
}
template< class R > void idx( R const & r, size_t n, const char * what, int how )
{
    using T = std::decay_t<decltype( *r.begin() )>; auto v = readall<T>( r, how ); vm::event( v.size() + 1 ); bool ok = v.size() == n; for ( size_t k = 0; ok && k < n; ++k ) ok = v[k] == k;
    if ( !ok ) vm::fail( "indices", "indices of %s of size %zu: %zu values, first wrong or missing", what, n, v.size() );
    size_t d = 0; for ( auto it = r.begin(); it != r.end(); ++it ) ++d; if ( d != n ) vm::fail( "indices-repeat", "indices of %s of size %zu: %zu values when read again", what, n, d );
    vm::distinct( vm::mix( vm::strhash( what ), n ) );
}
#define L64 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7
#define M4( ... ) __VA_ARGS__, __VA_ARGS__, __VA_ARGS__, __VA_ARGS__
#define N4( ... ) __VA_ARGS__, __VA_ARGS__, __VA_ARGS__, __VA_ARGS__
#define O4( ... ) __VA_ARGS__, __VA_ARGS__, __VA_ARGS__, __VA_ARGS__
#define P4( ... ) __VA_ARGS__, __VA_ARGS__, __VA_ARGS__, __VA_ARGS__
#define Q4( ... ) __VA_ARGS__, __VA_ARGS__, __VA_ARGS__, __VA_ARGS__
template< class T, size_t N > void arr( int how ) { T a[N] = {}; T const c[N] = {}; idx( indices( a ), N, "array", how ); idx( indices( c ), N, "const array", how ); std::array<T, N> s{}; idx( indices( s ), N, "std::array", how ); }

GROUP( uniti, 4000*5, 100000 ) { switch ( g.i( 0, 7 ) ) { case 0: unit<int, int>( g ); break; case 1: unit<int, long>( g ); break; case 2: unit<unsigned, unsigned>( g ); break; case 3: unit<short, short>( g ); break; case 4: unit<signed char, signed char>( g ); break; case 5: unit<unsigned char, unsigned char>( g ); break; case 6: unit<int, size_t>( g ); break; default: unit<long, short>( g ); } }
GROUP( unitf, 2000*5, 60000 ) { switch ( g.i( 0, 5 ) ) { case 0: unit<int, double>( g ); break; case 1: unit<double, int>( g ); break; case 2: unit<double, double>( g ); break; case 3: unit<float, int>( g ); break; case 4: unit<float, double>( g ); break; default: unit<short, long double>( g ); } }
GROUP( stepi, 4000*5, 100000 ) { switch ( g.i( 0, 7 ) ) { case 0: stepped<int, int, int>( g ); break; case 1: stepped<int, long, short>( g ); break; case 2: stepped<unsigned, unsigned, unsigned>( g ); break; case 3: stepped<short, short, short>( g ); break; case 4: stepped<signed char, signed char, signed char>( g ); break; case 5: stepped<unsigned char, unsigned char, unsigned char>( g ); break; case 6: stepped<size_t, size_t, int>( g ); break; default: stepped<long, long, long>( g ); } }
GROUP( stepf, 4000*5, 100000 ) { switch ( g.i( 0, 6 ) ) { case 0: stepped<double, double, double>( g ); break; case 1: stepped<int, double, double>( g ); break; case 2: stepped<int, int, double>( g ); break; case 3: stepped<float, float, float>( g ); break; case 4: stepped<int, float, float>( g ); break; case 5: stepped<double, int, float>( g ); break; default: stepped<long double, int, int>( g ); } }
GROUP( wides, 8000, 200000 ) { switch ( g.i( 0, 7 ) ) { case 0: wide<int8_t>( g ); break; case 1: wide<uint8_t>( g ); break; case 2: wide<int16_t>( g ); break; case 3: wide<uint16_t>( g ); break; case 4: wide<int32_t>( g ); break; case 5: wide<uint32_t>( g ); break; case 6: wide<int64_t>( g ); break; default: wide<uint64_t>( g ); } }
GROUP( manysteps, 2, 12 ) { many<float>( g ); many<double>( g ); }
GROUP( infinite, 1500, 30000 ) { switch ( g.i( 0, 6 ) ) { case 0: unbounded<int>( g ); break; case 1: unbounded<long>( g ); break; case 2: unbounded<unsigned>( g ); break; case 3: unbounded<double>( g ); break; case 4: unbounded<float>( g ); break; case 5: unbounded<short>( g ); break; default: unbounded<unsigned long>( g ); } }
GROUP( indexes, 600, 8000 )
{
    int how = int( g.i( 0, 5 ) ); size_t n = g.p( .2 ) ? size_t( g.i( 0, 2 ) ) : size_t( g.i( 0, 800 ) );
    idx( indices( std::vector<double>( n ) ), n, "vector", how ); idx( indices( std::string( n, 'x' ) ), n, "string", how ); idx( indices( std::list<int>( n ) ), n, "list", how ); idx( indices( std::deque<char>( n ) ), n, "deque", how ); idx( indices( std::vector<bool>( n ) ), n, "vector<bool>", how );
    std::map<int, int> m; for ( size_t k = 0; k < n; ++k ) m[int( k )] = 1; idx( indices( m ), n, "map", how );
    std::vector<int> const cv( n ); idx( indices( cv ), n, "const vector", how ); std::array<int, 0> z; idx( indices( z ), 0, "empty std::array", how );
    arr<int, 1>( how ); arr<char, 2>( how ); arr<double, 7>( how ); arr<short, 300>( how ); arr<std::string, 3>( how );
    idx( indices( { 1 } ), 1, "list of 1", how ); idx( indices( { 1.0, 2.0 } ), 2, "list of 2", how ); idx( indices( { 5, 4, 3, 2, 1 } ), 5, "list of 5", how ); idx( indices( std::initializer_list<int>{} ), 0, "empty list", how );
    idx( indices( { M4( L64 ) } ), 256, "list of 256", how ); idx( indices( { M4( L64 ), L64, 1 } ), 321, "list of 321", how );
}
template< class S > struct Sized { S n; S size() const { return n; } };
template< class S > void sized( vm::Rng & g, const char * what ) { S n = S( g.p( .2 ) ? 0 : g.p( .3 ) ? std::min<unsigned long>( std::numeric_limits<S>::max(), 70000 + g.i( 0, 9 ) ) : g.i( 0, 127 ) ); Sized<S> c{ n }; unsigned long k = 0; bool ok = true; for ( auto i : indices( c ) ) { ok = ok && (unsigned long)( i ) == k; if ( ++k > 80000 ) break; } vm::event( k ); if ( !ok || k != (unsigned long)( n ) ) vm::fail( "indices", "indices of a container with %s size %lu: %lu values or a wrong one", what, (unsigned long)( n ), k ); vm::distinct( vm::mix( vm::strhash( what ), n ) ); }
static char bigbuf[70001]; struct P2 { short a; char b; }; static P2 bigp[40000];
GROUP( bigindexes, 60, 400 )
{
    size_t n = size_t( g.i( 60000, 140000 ) ), k = 0; std::vector<bool> b( n ); bool ok = true; for ( auto i : indices( b ) ) { ok = ok && i == k; if ( ++k > n + 5 ) break; } vm::event( k ); if ( !ok || k != n ) vm::fail( "indices", "indices of a vector of size %zu: %zu values or a wrong one", n, k );
    auto cnt = [&]( auto && r, size_t w, const char * what ) { size_t c = 0; bool o = true; for ( auto i : r ) { o = o && size_t( i ) == c; if ( ++c > w + 5 ) break; } vm::event( c ); if ( !o || c != w ) vm::fail( "indices", "indices of %s of size %zu: %zu values or a wrong one", what, w, c ); };
    cnt( indices( bigbuf ), 70001, "char array" ); cnt( indices( bigp ), 40000, "array of structures" ); cnt( indices( std::string( n, 'a' ) ), n, "string" ); static std::array<char, 66000> sa; cnt( indices( sa ), 66000, "std::array" );
    cnt( indices( { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20 } ), 20, "list" ); cnt( indices( { 'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'n', 'o', 'p', 'q', 'r', 's', 't', 'u', 'v', 'w', 'x', 'y', 'z', 'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'n', 'o', 'p', 'q', 'r', 's', 't', 'u', 'v', 'w', 'x', 'y', 'z', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '.', ',', ';', ':' } ), 66, "list" );
    cnt( indices( { M4( N4( O4( P4( Q4( L64 ) ) ) ) ), 8, 9 } ), 65538, "list" );
    sized<unsigned char>( g, "8-bit" ); sized<unsigned short>( g, "16-bit" ); sized<unsigned>( g, "32-bit" ); sized<int>( g, "signed" ); vm::distinct( vm::mix( 99, n ) );
}
GROUP( algorithms, 800, 10000 )      // iterators used by standard algorithms and nested loops
{
    int n = int( g.i( 0, 200 ) ), s = int( g.i( 1, 7 ) ), a = int( g.i( -50, 50 ) ); auto r = range( a, a + n ); auto q = range( a, a + n, s ); long want = 0, wq = 0, cq = 0; for ( int k = 0; k < n; ++k ) { want += a + k; if ( k % s == 0 ) { wq += a + k; ++cq; } }
    vm::event( 6 ); vm::distinct( vm::mix( vm::mix( 7, n * 8 + s ), a ) );
    if ( std::accumulate( r.begin(), r.end(), 0L ) != want || std::accumulate( q.begin(), q.end(), 0L ) != wq ) vm::fail( "accumulate", "sum over range( %d, %d ) or with step %d is wrong", a, a + n, s );
    long c = 0; std::for_each( q.begin(), q.end(), [&]( int ) { ++c; } ); if ( c != cq ) vm::fail( "for_each", "for_each over range( %d, %d, %d ) visits %ld, expected %ld", a, a + n, s, c, cq );
    std::vector<int> v( r.begin(), r.end() ), w; std::copy( q.begin(), q.end(), std::back_inserter( w ) ); bool ok = v.size() == size_t( n ) && w.size() == size_t( cq ); for ( int k = 0; ok && k < n; ++k ) ok = v[k] == a + k; for ( size_t k = 0; ok && k < w.size(); ++k ) ok = w[k] == a + int( k ) * s;
    if ( !ok ) vm::fail( "copied", "vector filled from range( %d, %d ) or step %d has wrong values", a, a + n, s );
    if ( n ) { int t = a + int( g.i( 0, n - 1 ) ); auto it = std::find( r.begin(), r.end(), t ); if ( it == r.end() || *it != t ) vm::fail( "find", "%d is not found in range( %d, %d )", t, a, a + n ); }
    int cnt = 0, m = n % 23; for ( auto i : range( 0, m ) ) for ( auto j : range( i, m ) ) { if ( j < i ) vm::fail( "nested", "nested ranges disturb each other" ); ++cnt; } if ( cnt != m * ( m + 1 ) / 2 ) vm::fail( "nested", "nested ranges over %d give %d pairs", m, cnt );
    auto r2 = r; auto it = r2.begin(); for ( int k = 0; k < n / 2; ++k ) ++it; auto tail = it; std::vector<int> t1, t2; for ( ; it != r2.end(); ++it ) t1.push_back( *it ); for ( ; tail != r2.end(); tail++ ) t2.push_back( *tail ); if ( t1 != t2 || t1.size() != size_t( n - n / 2 ) ) vm::fail( "copied-iterator", "a copied iterator of range( %d, %d ) does not continue like the original", a, a + n );
}
VMON_MAIN
