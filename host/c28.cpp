// C28: the bundled standard-library replacements behave like the standard library.
#include "vmon.hpp"
#include <algorithm>
#include <forward_list>
#include <functional>
#include <iterator>
#include <limits>
#include <list>
#include <memory>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>
#include "std/algorithm.hpp"
#include "std/complex.hpp"
#include "std/cstdint.hpp"
#include "std/limits.hpp"
#include "std/type_traits.hpp"
#include "std/tuple.hpp"
#include "std/utility.hpp"
#include "c28.hpp"

template< class T > Lim want() { using L = std::numeric_limits<T>; return { L::is_signed, L::is_integer, std::is_integral<T>::value, std::is_integral<T>::value, std::is_signed<T>::value, std::is_signed<T>::value, L::is_integer ? L::digits : 0, L::is_integer ? (long long)L::min() : 0, L::is_integer ? (unsigned long long)L::max() : 0 }; }
template< class T > Lim desk() { using L = std20::numeric_limits<T>; return { L::is_signed, L::is_integer, std20::is_integral<T>::value, std20::is_integral_v<T>, std20::is_signed<T>::value, std20::is_signed_v<T>, L::is_integer ? L::digits : 0, L::is_integer ? (long long)L::min() : 0, L::is_integer ? (unsigned long long)L::max() : 0 }; }
static void cmp( Lim a, Lim w, const char * what, const char * where )
{
    vm::event( 9 ); vm::distinct( vm::mix( vm::strhash( what ), vm::strhash( where ) ) );
    auto c = [&]( const char * f, long long x, long long y ) { if ( x != y ) vm::fail( vm::fmt( "limits-%s", f ), "%s %s: %s is %lld, the standard has %lld", where, what, f, x, y ); };
    c( "is_signed", a.is_signed, w.is_signed ); c( "is_integer", a.is_integer, w.is_integer ); c( "is_integral", a.integral, w.integral ); c( "is_integral_v", a.integral_v, w.integral_v ); c( "trait_is_signed", a.sgn, w.sgn ); c( "is_signed_v", a.sgn_v, w.sgn_v );
    c( "digits", a.digits, w.digits ); c( "min", a.lo, w.lo ); c( "max", (long long)a.hi, (long long)w.hi );
}
template< class T > void lim( int k, const char * n ) { cmp( avr_lim( k ), want<T>(), n, "microcontroller" ); cmp( desk<T>(), want<T>(), n, "desktop" ); }
GROUP( limits, 1, 1 )
{
    lim<int8_t>( 0, "int8" ); lim<uint8_t>( 1, "uint8" ); lim<int16_t>( 2, "int16" ); lim<uint16_t>( 3, "uint16" ); lim<int32_t>( 4, "int32" ); lim<uint32_t>( 5, "uint32" ); lim<int64_t>( 6, "int64" ); lim<uint64_t>( 7, "uint64" ); lim<float>( 8, "float" ); lim<double>( 9, "double" );
    if ( int l = avr_traits() ) vm::fail( "traits", "type traits of the microcontroller differ from the standard (host/c28_avr.cpp line %d)", l ); vm::event( 200 );
    vm::sample( "numeric_limits, is_signed, is_integral of 10 number types; removal traits of 6 types, both configurations" );
}
// a single-pass input iterator that counts what is read
struct Once { int const * p; int * reads; using iterator_category = std::input_iterator_tag; using value_type = int; using difference_type = std::ptrdiff_t; using pointer = int const *; using reference = int const &;
    int const & operator*() const { ++*reads; return *p; } Once & operator++() { ++p; return *this; } Once operator++( int ) { auto c = *this; ++p; return c; } bool operator!=( Once o ) const { return p != o.p; } bool operator==( Once o ) const { return p == o.p; } };
static std::vector<int> ints( vm::Rng & g, int n, int k ) { std::vector<int> v( n ); for ( auto & x : v ) x = int( g.i( -k, k ) ); v.shrink_to_fit(); return v; }
#define CHECK( c, key ) do { vm::event(); if ( !( c ) ) vm::fail( key, "n=%d: %s", n, #c ); } while ( 0 )
GROUP( copies, 4000, 100000 )
{
    int n = g.p( .2 ) ? int( g.i( 0, 2 ) ) : int( g.i( 0, 60 ) ); auto a = ints( g, n, 1000 ), a0 = a; int b = int( g.i( 0, n ) ), e = int( g.i( b, n ) ); std::vector<int> w( a.begin() + b, a.begin() + e ), d( e - b + 2, 7 ); vm::distinct( vm::mix( vm::mix( a.empty() ? 0 : a[0] + 5000, n * 100 + b ), e ) );
    { auto r = std20::copy( a.data() + b, a.data() + e, d.data() + 1 ); CHECK( r == d.data() + 1 + ( e - b ), "copy-return" ); CHECK( std::equal( w.begin(), w.end(), d.begin() + 1 ) && d.front() == 7 && d.back() == 7, "copy-pointers" ); }
    { std::vector<int> x( e - b + 2, 7 ); auto r = avr_copy( a.data() + b, a.data() + e, x.data() + 1 ); CHECK( r == x.data() + 1 + ( e - b ) && x == d, "copy-microcontroller" ); }
    { std::list<long> l; auto r = std20::copy( a.begin() + b, a.begin() + e, std::back_inserter( l ) ); *r++ = 9; w.push_back( 9 ); CHECK( std::equal( l.begin(), l.end(), w.begin(), w.end() ), "copy-inserter" ); w.pop_back(); }
    { int reads = 0; std::vector<int> x( e - b ); std20::copy( Once{ a.data() + b, &reads }, Once{ a.data() + e, &reads }, x.begin() ); CHECK( x == w && reads == e - b, "copy-single-pass" ); }
    { std::istringstream is( "1 2 3 4 5" ); std::ostringstream os; std20::copy( std::istream_iterator<int>( is ), std::istream_iterator<int>(), std::ostream_iterator<int>( os, "," ) ); CHECK( os.str() == "1,2,3,4,5,", "copy-streams" ); }
    if ( b > 0 ) { auto o = a; auto t = a; int to = int( g.i( 0, b - 1 ) ); std::copy( t.begin() + b, t.begin() + e, t.begin() + to ); std20::copy( o.begin() + b, o.begin() + e, o.begin() + to ); CHECK( o == t, "copy-overlapping-down" ); }
    { std::vector<std::string> s; for ( int x : w ) s.push_back( std::to_string( x ) + std::string( 30, 'x' ) ); std::vector<std::string> t( s.size() ); std20::copy( s.cbegin(), s.cend(), t.begin() ); bool same = t == s; for ( size_t k = 0; k < s.size(); ++k ) same = same && s[k] == std::to_string( w[k] ) + std::string( 30, 'x' ); CHECK( same, "copy-texts" ); }
    { std::vector<bool> s( n ), t( n ); for ( int k = 0; k < n; ++k ) s[k] = a[k] & 1; std20::copy( s.begin(), s.end(), t.begin() ); CHECK( s == t, "copy-bits" ); } CHECK( a == a0, "copy-source-changed" );
}
GROUP( fills, 3000, 80000 )
{
    int n = g.p( .2 ) ? int( g.i( 0, 2 ) ) : int( g.i( 0, 60 ) ); auto a = ints( g, n, 1000 ); int b = int( g.i( 0, n ) ), e = int( g.i( b, n ) ), v = int( g.i( -9, 9 ) ); auto w = a, x = a; std::fill( w.begin() + b, w.begin() + e, v ); std20::fill( a.begin() + b, a.begin() + e, v ); avr_fill( x.data() + b, x.data() + e, v ); vm::distinct( vm::mix( vm::mix( a.empty() ? 0 : a[0] + 5000, n * 100 + b ), e * 20 + v ) );
    CHECK( a == w, "fill" ); CHECK( x == w, "fill-microcontroller" );
    { std::list<double> l( n, 1 ); std20::fill( l.begin(), l.end(), 2 ); CHECK( std::count( l.begin(), l.end(), 2.0 ) == n, "fill-list" ); std::forward_list<std::string> f( n ); std20::fill( f.begin(), f.end(), std::string( "abcabcabcabcabcabc" ) ); CHECK( std::count( f.begin(), f.end(), "abcabcabcabcabcabc" ) == n, "fill-texts" ); }
    { int16_t h[9]; std20::fill( h, h + 9, 258 ); CHECK( h[0] == 258 && h[8] == 258, "fill-short" ); unsigned char c[3] = { 1, 2, 3 }; std20::fill( c, c + 2, 200 ); CHECK( c[0] == 200 && c[1] == 200 && c[2] == 3, "fill-bytes" ); }
}
// elements whose equality looks at one part only, and elements compared with another type in one order only
struct Veil { int v, tag; bool operator==( Veil const & o ) const { return v == o.v; } bool operator!=( Veil const & o ) const { return v != o.v; } };
struct Lhs { int v; }; struct Rhs { int v; }; static bool operator==( Lhs a, Rhs b ) { return a.v <= b.v; } static bool operator==( Rhs, Lhs ) { return false; }
static bool bits( std::vector<double> const & a, std::vector<double> const & b ) { return a.size() == b.size() && ( a.empty() || !memcmp( a.data(), b.data(), a.size() * sizeof( double ) ) ); }
GROUP( veils, 2000, 40000 )
{
    int n = int( g.i( 0, 30 ) ); std::vector<Veil> a( n ), d( n ), f( n ); for ( int k = 0; k < n; ++k ) { a[k] = { int( g.i( 0, 1 ) ), int( g.i( 0, 99 ) ) }; d[k] = { int( g.i( 0, 1 ) ), -1 }; f[k] = { int( g.i( 0, 1 ) ), -2 }; }
    std20::copy( a.begin(), a.end(), d.begin() ); bool ok = true; for ( int k = 0; k < n; ++k ) ok = ok && d[k].v == a[k].v && d[k].tag == a[k].tag; CHECK( ok, "copy-equal-elements" );
    std20::fill( f.begin(), f.end(), Veil{ 1, 5 } ); ok = true; for ( auto x : f ) ok = ok && x.v == 1 && x.tag == 5; CHECK( ok, "fill-equal-elements" );
    double sp[] = { 0.0, -0.0, std::numeric_limits<double>::quiet_NaN(), 1 }; std::vector<double> x( n ), y( n ); for ( auto & v : x ) v = sp[ g.i( 0, 3 ) ]; for ( auto & v : y ) v = sp[ g.i( 0, 3 ) ]; std20::copy( x.begin(), x.end(), y.begin() ); CHECK( bits( x, y ), "copy-special-values" ); double z = sp[ g.i( 0, 3 ) ]; std20::fill( y.begin(), y.end(), z ); CHECK( bits( y, std::vector<double>( n, z ) ), "fill-special-values" );
    std::vector<Lhs> l( n ); std::vector<Rhs> r( n ); bool w = true; for ( int k = 0; k < n; ++k ) { l[k].v = int( g.i( 0, 50 ) ); r[k].v = int( g.i( 35, 99 ) ); w = w && l[k].v <= r[k].v; } CHECK( std20::equal( l.begin(), l.end(), r.begin() ) == w, "equal-operand-order" ); vm::distinct( vm::mix( vm::mix( n, n ? a[0].tag : 0 ), g.next() ) );
}
static bool odd( int a, int b ) { return ( a & 1 ) == ( b & 1 ); } static bool less( int a, int b ) { return a <= b; }
GROUP( equals, 6000, 150000 )
{
    int n = g.p( .3 ) ? int( g.i( 0, 3 ) ) : int( g.i( 0, 40 ) ); auto a = ints( g, n, g.p( .5 ) ? 1 : 1000 ), b = a; int diff = int( g.i( 0, 3 ) ); for ( int k = 0; k < diff && n; ++k ) b[ g.p( .3 ) ? 0 : g.p( .4 ) ? n - 1 : g.i( 0, n - 1 ) ] += int( g.i( -1, 2 ) ); auto a0 = a, b0 = b; vm::distinct( vm::mix( vm::mix( n, a.empty() ? 0 : a[0] ), diff ) ); bool w = std::equal( a.begin(), a.end(), b.begin() );
    CHECK( std20::equal( a.begin(), a.end(), b.begin() ) == w, "equal" ); CHECK( std20::equal( a.data(), a.data() + n, b.data() ) == w, "equal-pointers" ); CHECK( avr_equal( a.data(), a.data() + n, b.data() ) == w, "equal-microcontroller" ); { auto longer = b; longer.push_back( 5 ); CHECK( std20::equal( a.begin(), a.end(), longer.begin() ) == w, "equal-longer-second" ); }
    { std::list<long> l( b.begin(), b.end() ); CHECK( std20::equal( a.begin(), a.end(), l.begin() ) == w, "equal-mixed" ); } { int r1 = 0, r2 = 0; CHECK( std20::equal( Once{ a.data(), &r1 }, Once{ a.data() + n, &r1 }, Once{ b.data(), &r2 } ) == w && r1 <= n && r2 <= n, "equal-single-pass" ); }
    CHECK( std20::equal( a.begin(), a.end(), b.begin(), odd ) == std::equal( a.begin(), a.end(), b.begin(), odd ), "equal-predicate" ); CHECK( std20::equal( a.begin(), a.end(), b.begin(), less ) == std::equal( a.begin(), a.end(), b.begin(), less ), "equal-predicate-order" ); CHECK( std20::equal( b.begin(), b.end(), a.begin(), std::less_equal<int>() ) == std::equal( b.begin(), b.end(), a.begin(), std::less_equal<int>() ), "equal-functor" ); CHECK( avr_equal( a.data(), a.data() + n, b.data(), less ) == std::equal( a.begin(), a.end(), b.begin(), less ), "equal-predicate-microcontroller" );
    int calls = 0, at = -1; std20::equal( a.begin(), a.end(), b.begin(), [&]( int const & x, int const & y ) { int k = int( &x - a.data() ); if ( k <= at || &y - b.data() != k ) at = 1 << 20; else at = k; ++calls; return true; } ); CHECK( calls == n && at < ( 1 << 20 ), "equal-pairs" ); CHECK( a == a0 && b == b0, "equal-changed" );
    if ( n ) { std::vector<double> d( n, 1 ); d[ g.i( 0, n - 1 ) ] = std::numeric_limits<double>::quiet_NaN(); CHECK( !std20::equal( d.begin(), d.end(), d.begin() ), "equal-nan" ); }
}
template< class T > void sw( vm::Rng & g, T a, T b, const char * key ) { int n = 0; T a0 = a, b0 = b; std20::swap( a, b ); CHECK( a == b0 && b == a0, key ); std20::swap( a, a ); CHECK( a == b0, key ); std20::swap( a, b ); CHECK( a == a0 && b == b0, key ); }
template< class T > void swm( T a, T b, const char * key ) { int n = 0; T a0 = a, b0 = b; avr_swap( a, b ); CHECK( a == b0 && b == a0, key ); avr_swap( b, b ); CHECK( b == a0, key ); }
GROUP( swaps, 3000, 50000 )
{
    int n = int( g.i( 0, 1000 ) ); long r = long( g.next() ), q = long( g.next() ); vm::distinct( vm::mix( r, q ) );
    sw<int>( g, int( r ), int( q ), "swap-int" ); sw<long>( g, r, q, "swap-long" ); sw<char>( g, char( r ), char( q ), "swap-char" ); sw<double>( g, g.n(), g.n(), "swap-double" ); sw<std::string>( g, std::string( n % 50, 'a' ), std::to_string( r ), "swap-text" ); sw< std::vector<int> >( g, std::vector<int>( n % 9, n ), ints( g, 5, 99 ), "swap-vector" ); int o; sw<int *>( g, &o, &n, "swap-pointer" );
    swm<int>( int( r ), int( q ), "swap-microcontroller" ); swm<long long>( r, q, "swap-microcontroller" ); swm<double>( g.n(), g.n(), "swap-microcontroller" );
    { auto p = std::make_unique<int>( 1 ), u = std::make_unique<int>( 2 ); auto pp = p.get(), uu = u.get(); std20::swap( p, u ); CHECK( p.get() == uu && u.get() == pp, "swap-move-only" ); auto m = std20::move( p ); CHECK( m.get() == uu && !p, "move" ); }
    { Tracked a( n ), b( n + 1 ); std20::swap( a, b ); CHECK( a.v == n + 1 && b.v == n && a.copies + b.copies == 0, "swap-copies" ); Tracked c( n ), d( n + 1 ); avr_swap( c, d ); CHECK( c.v == n + 1 && d.v == n && c.copies + d.copies == 0, "swap-copies-microcontroller" ); }
    { std::string s = std::string( 40, 'q' ) + std::to_string( n ), t = s; std::string & rs = s; std::string && mv = std20::move( rs ); CHECK( &mv == &s && s == t, "move-reference" ); std::string u( std20::move( s ) ); CHECK( u == t, "move-content" ); std::string const cs( "k" ); std::string v( std20::move( cs ) ); CHECK( v == "k" && cs == "k", "move-const" ); }
    int out[4] = { 0 }; int k = int( g.i( 0, 3 ) ); unsigned m = avr_list( k, int( r ), int( q ), n, out ); int w[] = { int( r ), int( q ), n }; bool ok = m == unsigned( k ); for ( int i = 0; ok && i < k; ++i ) ok = out[i] == w[i]; CHECK( ok, "initializer-list-microcontroller" );
}
GROUP( complexes, 2000, 50000 )
{
    static const double SP[] = { 0., -0., 1., -1., HUGE_VAL, -HUGE_VAL, NAN, 1e-310, 1e300, 3.4e38, 1e-45 }; int n = 0; auto v = [&]() { return g.p( .3 ) ? SP[ g.next() % 11 ] : g.n() * std::exp2( double( g.i( -60, 60 ) ) ); };
    double a = v(), b = v(), c = v(), d = v(); for ( int k = 0; k < 5; ++k ) if ( int l = avr_complex( k, a, b, c, d ) ) vm::fail( "complex-microcontroller", "construction, assignment or components of the microcontroller's complex (%a, %a), (%a, %a), types %d: host/c28_avr.cpp line %d", a, b, c, d, k, l );
    CHECK( ( std::is_same<std20::complex<double>, std::complex<double>>::value && std::is_same<std20::tuple<int, char>, std::tuple<int, char>>::value ), "desktop-types" ); int x = 7; std20::ignore = x; CHECK( x == 7, "ignore" ); std20::tuple<int, double> t( 3, a ); CHECK( std::get<0>( t ) == 3, "tuple" );
    vm::event( 5 * 25 ); vm::distinct( vm::mix( uint64_t( int64_t( a * 1e6 < 9e18 && a * 1e6 > -9e18 ? a * 1e6 : 0 ) ), g.next() ) ); vm::counter( "complex-numbers", 5 );
}
VMON_MAIN
