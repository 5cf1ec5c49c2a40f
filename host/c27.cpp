// C27: printing shows exactly the numbers held; text helpers.
#include "dsp.hpp"
#include <iomanip>
#include <limits>
#include <sstream>
#include <string>
#include "core/core.hpp"
#include "core/core-io.hpp"
#include "num/fixed-point.hpp"
#include "num/fixed-point-io.hpp"
#include "num/matrix.hpp"
#include "num/matrix-io.hpp"
#include "dsp/biquad.hpp"
#include "dsp/biquad-io.hpp"
#include "dsp/biquad-cascade.hpp"
#include "dsp/biquad-cascade-io.hpp"
#include "dsp/onepole.hpp"
#include "dsp/onepole-io.hpp"
#include "dsp/chebyshev-design.hpp"
#include "dsp/chebyshev-design-io.hpp"
#include <unordered_map>

struct Style { int prec; int mode; bool plus; int base = 0; };
static Style style( vm::Rng & g ) { return { g.p( .4 ) ? 6 : int( g.i( 1, 17 ) ), int( g.i( 0, 3 ) ), g.p( .2 ), g.p( .15 ) ? int( g.i( 1, 4 ) ) : 0 }; }
static void put( std::ostream & os, Style s ) { os.precision( s.prec ); if ( s.mode == 1 ) os << std::fixed; if ( s.mode == 2 ) os << std::scientific; if ( s.plus ) os << std::showpos; if ( s.base == 1 ) os << std::hex << std::showbase; if ( s.base == 2 ) os << std::oct; if ( s.base == 3 ) os << std::uppercase << std::showpoint; if ( s.base == 4 ) os << std::hex << std::uppercase; }
template< class V > std::string lit( V v, Style s ) { std::ostringstream o; put( o, s ); o << v; return o.str(); }
template< class X > std::string out( X const & x, Style s )
{
    std::ostringstream o; put( o, s ); auto f = o.flags(); auto & back = ( o << x ); vm::event();
    if ( &back != &o ) vm::fail( "stream-returned", "operator<< returns another stream" );
    if ( o.flags() != f || o.precision() != s.prec || !o.good() ) vm::fail( "stream-state", "printing changed the state of the stream" );
    std::string one = o.str(); std::ostringstream p; put( p, s ); p << '<' << x << '>' << x; if ( p.str() != "<" + one + ">" + one ) vm::fail( "print-repeat", "printing an object a second time or after other text gives something else: %s", vm::clean( p.str() ).c_str() );
    return one;
}
static void same( std::string const & got, std::string const & want, const char * key ) { if ( got != want ) vm::fail( key, "printed \"%s\", expected \"%s\"", vm::clean( got ).c_str(), vm::clean( want ).c_str() ); vm::distinct( vm::strhash( got.c_str() ) ); }
template< class V > V value( vm::Rng & g )
{
    if constexpr ( std::is_integral<V>::value ) return g.p( .2 ) ? ( g.p( .5 ) ? std::numeric_limits<V>::max() : std::numeric_limits<V>::lowest() ) : V( g.i( -1000, 1000 ) );
    else { double d = g.p( .05 ) ? ( g.p( .5 ) ? -0.0 : 0.0 ) : g.p( .03 ) ? g.sgn() * std::numeric_limits<double>::infinity() : g.p( .2 ) ? double( g.i( -9, 9 ) ) : g.p( .2 ) ? g.sgn() * g.logu( 1e-12, 1e12 ) : g.uni( -100, 100 ); return V( d ); }
}
template< class T, int I, int F > void fixed( vm::Rng & g )
{
    using X = num::fixed_point<T, I, F>; T r = g.p( .2 ) ? ( g.p( .5 ) ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min() ) : T( g.next() ); Style s = style( g );
    X x; x = X( X::construct, r ); same( out( x, s ), lit( double( r ) / double( 1ull << F ), s ), "fixed-point" ); if ( x.underlying_value() != r ) vm::fail( "changed", "printing changed a fixed-point number" );
}
template< class T, int N, int M > void mat( vm::Rng & g )
{
    num::matrix<T, N, M> m; std::vector<T> v; Style s = style( g ); for ( int i = 0; i < N * M; ++i ) { v.push_back( value<T>( g ) ); m( i / M, i % M ) = v.back(); }
    std::string want; for ( int i = 0; i < N; ++i ) { for ( int j = 0; j < M; ++j ) want += " " + lit( v[i * M + j], s ); want += "\n"; } same( out( m, s ), want, "matrix" );
    for ( int i = 0; i < N * M; ++i ) if ( m( i / M, i % M ) != v[i] ) vm::fail( "changed", "printing changed a matrix" );
}
template< int N, int M > void mats( vm::Rng & g ) { mat<double, N, M>( g ); mat<float, N, M>( g ); mat<int, N, M>( g ); mat<short, N, M>( g ); }
template< int N, int M > void matfx( vm::Rng & g )
{
    using X = num::fixed_point<int32_t, 15, 16>; num::matrix<X, N, M> m; std::string want; Style s = style( g );
    for ( int i = 0; i < N; ++i ) { for ( int j = 0; j < M; ++j ) { int32_t r = int32_t( g.next() ); m( i, j ) = X( X::construct, r ); want += " " + lit( double( r ) / 65536, s ); } want += "\n"; } same( out( m, s ), want, "matrix-fixed-point" );
}
GROUP( fixedpoint, 4000, 80000 ) { fixed<int32_t, 15, 16>( g ); fixed<int32_t, 3, 28>( g ); fixed<int32_t, 31, 0>( g ); fixed<int16_t, 7, 8>( g ); fixed<int16_t, 0, 15>( g ); fixed<int8_t, 3, 4>( g ); fixed<int8_t, 7, 0>( g ); }
GROUP( matrices, 1500, 40000 ) { mats<1, 1>( g ); mats<2, 2>( g ); mats<2, 3>( g ); mats<3, 2>( g ); mats<1, 4>( g ); mats<4, 1>( g ); mats<5, 3>( g ); matfx<2, 2>( g ); matfx<3, 1>( g ); }
template< class T > void vec( vm::Rng & g )
{
    std::vector<T> v( g.i( 0, 9 ) ); std::string want = "["; Style s = style( g ); for ( auto & x : v ) { x = value<T>( g ); want += " " + lit( x, s ); } want += "]"; auto c = v; same( out( v, s ), want, "vector" ); if ( c != v ) vm::fail( "changed", "printing changed a vector" );
}
GROUP( vectors, 4000, 80000 ) { vec<double>( g ); vec<float>( g ); vec<int>( g ); vec<long>( g ); std::vector<std::string> t( g.i( 0, 3 ), "ab" ); std::string w = "["; for ( auto & x : t ) w += " " + x; same( out( t, Style{ 6, 0, false } ), w + "]", "vector-text" ); }

template< class T > std::string A2( Co const & c, Style s ) { return "[A " + lit( T( c.a1 ), s ) + ", " + lit( T( c.a2 ), s ) + " ]"; }
template< class T > std::string B3( Co const & c, Style s ) { return "[B " + lit( T( c.b0 ), s ) + ", " + lit( T( c.b1 ), s ) + ", " + lit( T( c.b2 ), s ) + " ]"; }
template< class T > Co coeffs( vm::Rng & g )
{
    Co c; c.b0 = T( g.sgn() * g.logu( .01, 10 ) ); c.b1 = T( g.uni( -3, 3 ) ); c.b2 = T( g.uni( -3, 3 ) ); c.a1 = T( g.uni( -2.2, 2.2 ) ); c.a2 = T( g.uni( -1.2, 1.2 ) );
    if ( g.p( .2 ) ) { c.b1 = 0; } if ( g.p( .2 ) ) c.a1 = 0; if ( g.p( .2 ) ) c.a2 = c.b2 = 0; if ( g.p( .1 ) ) c.a2 = g.sgn(); if ( g.p( .05 ) ) c.a1 = 2 * g.sgn(); if ( g.p( .05 ) ) c.b0 = g.sgn(); if ( g.p( .05 ) ) c.b0 = c.b1 = c.b2 = 0; return c;
}
// what a biquad must print; the two verdicts are both accepted within rounding of the unit circle
template< class T, class Q > std::string bq( Q const & q, Co const & c, T v1, T v2, Style s )
{
    auto p = q.poles(), z = q.zeros(); ld m = maxpole( c ); bool st = m < 1 - 1e-5L ? true : m > 1 + 1e-5L ? false : q.is_stable(); std::ostringstream o; put( o, s );
    o << "\nBiQuad is " << ( st ? "stable:" : "NOT stable:" ) << "\na: " << A2<T>( c, s ) << "\nb: " << B3<T>( c, s ) << "\nw: [W " << v1 << ", " << v2 << " ]\np: [S " << p.s0 << ", " << p.s1 << " ]\nz: [S " << z.s0 << ", " << z.s1 << " ]\n"; return o.str();
}
// the printed roots are numbers: parse them and put them into the polynomial
static void rooted( std::string const & text, const char * tag, ld k0, ld k1, ld k2, ld eps )
{
    if ( k0 == 0 ) return; auto at = text.find( tag ); if ( at == std::string::npos ) { vm::fail( "roots-missing", "no %s line in %s", tag, vm::clean( text ).c_str() ); return; }
    double a, b, c, d; if ( sscanf( text.c_str() + at + strlen( tag ), " [S (%lf,%lf), (%lf,%lf) ]", &a, &b, &c, &d ) != 4 ) { vm::fail( "roots-missing", "unreadable %s line in %s", tag, vm::clean( text ).c_str() ); return; }
    lc r( a, b ), q( c, d ); ld s = 1 + std::fabs( k1 / k0 ) + std::fabs( k2 / k0 ); vm::event();
    if ( !( std::abs( r + q + k1 / k0 ) <= eps * s * 40 ) || !( std::abs( r * q - k2 / k0 ) <= eps * s * s * 40 ) ) vm::fail( "roots-printed", "the printed %s roots do not belong to the printed polynomial %.9Lg %.9Lg %.9Lg: %s", tag, k0, k1, k2, vm::clean( text ).c_str() );
}
template< class T > void section( vm::Rng & g )
{
    Co c = coeffs<T>( g ); Style s = style( g ); using Q = dsp::BiQuadT<T>; Q q( typename Q::B{ T( c.b0 ), T( c.b1 ), T( c.b2 ) }, typename Q::A{ T( c.a1 ), T( c.a2 ) } ); int n = int( g.i( 0, 6 ) ); bool rare = g.p( .3 ); for ( int k = 0; k < n; ++k ) { auto st = q.state(); q.step( rare && g.p( .5 ) ? T( c.a1 ) * st.v1 + T( c.a2 ) * st.v2 : rare ? T( g.i( -1, 1 ) ) : T( g.uni( -1, 1 ) ) ); }
    auto w = q.state(); same( out( q, s ), bq<T>( q, c, w.v1, w.v2, s ), "biquad" );
    auto v = q.state(); if ( v.v1 != w.v1 || v.v2 != w.v2 || q.coeff_a().a1 != T( c.a1 ) || q.coeff_b().b0 != T( c.b0 ) ) vm::fail( "changed", "printing changed a biquad" );
    Style full{ std::numeric_limits<T>::max_digits10, 0, false }; auto t = out( q, full ); ld eps = std::numeric_limits<T>::epsilon(); rooted( t, "p:", 1, c.a1, c.a2, eps ); rooted( t, "z:", c.b0, c.b1, c.b2, eps );
    same( out( q.coeff_a(), s ), A2<T>( c, s ), "A" ); same( out( q.coeff_b(), s ), B3<T>( c, s ), "B" ); same( out( q.state(), s ), "[W " + lit( w.v1, s ) + ", " + lit( w.v2, s ) + " ]", "W" );
    dsp::biquad::BAT<T> ba; ba.b0 = T( c.b0 ); ba.b1 = T( c.b1 ); ba.b2 = T( c.b2 ); ba.a1 = T( c.a1 ); ba.a2 = T( c.a2 ); same( out( ba, s ), B3<T>( c, s ) + A2<T>( c, s ), "BA" );
    vm::sample( "%s", vm::clean( out( q, s ) ).c_str() );
}
GROUP( biquads, 3000, 60000 ) { section<double>( g ); section<float>( g ); }
template< class T, int N > void cascade( vm::Rng & g )
{
    dsp::biquad_cascade::BiQuadCascadeT<T, N> bqc; using Q = dsp::BiQuadT<T>; int n = int( g.i( 0, N ) ); std::vector<Co> cs; Style s = style( g ); ld worst = 0; bool sure = true;
    for ( int k = 0; k < n; ++k ) { Co c = coeffs<T>( g ); if ( g.p( .7 ) ) { c.a1 *= .4L; c.a2 *= .5L; c.a1 = T( c.a1 ); c.a2 = T( c.a2 ); } cs.push_back( c ); bqc.append( Q( typename Q::B{ T( c.b0 ), T( c.b1 ), T( c.b2 ) }, typename Q::A{ T( c.a1 ), T( c.a2 ) } ) ); ld m = maxpole( c ); worst = std::max( worst, m ); if ( std::fabs( m - 1 ) < 1e-5L ) sure = false; }
    if ( !sure ) return; for ( int k = int( g.i( 0, 5 ) ); k > 0; --k ) step( bqc, T( g.uni( -1, 1 ) ) );
    std::ostringstream o; put( o, s ); o << "\nFilter cascade occupies " << sizeof bqc << " bytes in memory.\nfilters: " << n << " entries out of " << N << ", " << ( worst < 1 ? "stable:" : "NOT stable:" ) << "\n"; int k = 0;
    for ( auto const & q : bqc ) { o << bq<T>( q, cs[k], bqc.state( k ).v1, bqc.state( k ).v2, s ); ++k; } same( out( bqc, s ), o.str(), "cascade" );
}
GROUP( cascades, 1500, 30000 ) { cascade<double, 4>( g ); cascade<float, 3>( g ); cascade<double, 1>( g ); }
template< class T > void onep( vm::Rng & g )
{
    T b0 = T( g.sgn() * g.logu( .01, 10 ) ), a1 = T( g.p( .2 ) ? 0 : g.uni( -1.6, 1.6 ) ); if ( std::fabs( std::fabs( a1 ) - 1 ) < 1e-5 ) return; Style s = style( g ); using Q = dsp::OnePoleT<T>; Q q( typename Q::B{ b0 }, typename Q::A{ a1 } );
    for ( int k = int( g.i( 0, 5 ) ); k > 0; --k ) q.step( T( g.uni( -1, 1 ) ) ); auto w = q.state(); auto p = q.poles(), z = q.zeros(); std::ostringstream o; put( o, s );
    o << "\nOnePole is " << ( std::fabs( a1 ) < 1 ? "stable:" : "NOT stable:" ) << "\na: [A " << a1 << " ]\nb: [B " << b0 << " ]\nw: [W " << w.v1 << " ]\np: [S " << p.s0 << " ]\nz: [S " << z.s0 << " ]\n"; same( out( q, s ), o.str(), "onepole" );
    if ( q.state().v1 != w.v1 ) vm::fail( "changed", "printing changed a one-pole filter" );
    Style full{ std::numeric_limits<T>::max_digits10, 0, false }; auto t = out( q, full ); double re = 9, im = 9; auto at = t.find( "p:" ); if ( at == std::string::npos || sscanf( t.c_str() + at, "p: [S (%lf,%lf) ]", &re, &im ) != 2 || T( re ) != T( -a1 ) || im != 0 ) vm::fail( "onepole-pole-printed", "one-pole with a1=%.9g prints %s", double( a1 ), vm::clean( t ).c_str() );
}
GROUP( onepoles, 3000, 60000 ) { onep<double>( g ); onep<float>( g ); }
template< class T > void infos( vm::Rng & g )
{
    dsp::chebyshev_design::AlgoInfoT<T> a{ value<T>( g ), value<T>( g ), value<T>( g ), value<T>( g ), value<T>( g ), int( g.i( 0, 30 ) ), value<T>( g ), value<T>( g ) }; Style s = style( g ); std::ostringstream o; put( o, s );
    o << "[I Wpass:" << a.Wpass << " Wstop:" << a.Wstop << " epass:" << a.epass << " estop:" << a.estop << " Nex:" << a.Nex << " N:" << a.N << " f3:" << a.f3 << " a:" << a.a << " ]"; same( out( a, s ), o.str(), "algorithm-info" );
}
GROUP( info, 1500, 30000 ) { infos<double>( g ); infos<float>( g ); }

static std::string word( vm::Rng & g, int lo, int hi, int letters ) { std::string s( g.i( lo, hi ), 'a' ); for ( auto & c : s ) c = char( letters > 200 ? g.i( 0, 255 ) : 'a' + g.i( 0, letters - 1 ) ); return s; }
GROUP( texts, 12000, 300000 )
{
    int letters = g.p( .1 ) ? 256 : int( g.i( 1, 4 ) ); std::string t = word( g, 0, 24, letters ), from = word( g, g.p( .03 ) ? 0 : 1, 4, letters ), to = word( g, 0, 7, letters ), t0 = t, from0 = from, to0 = to;
    if ( g.p( .1 ) ) from = t.empty() ? "a" : t; if ( g.p( .1 ) ) to = from + to; from0 = from; to0 = to;
    std::string want = t; for ( size_t k = 0; k + from.size() <= t.size(); ++k ) if ( !t.compare( k, from.size(), from ) ) { want = t.substr( 0, k ) + to + t.substr( k + from.size() ); break; }
    std::string got = core::replaced( t, from, to ); vm::event( 2 ); if ( got != want ) vm::fail( "replaced", "replaced( \"%s\", \"%s\", \"%s\" ) is \"%s\", expected \"%s\"", vm::clean( t ).c_str(), vm::clean( from ).c_str(), vm::clean( to ).c_str(), vm::clean( got ).c_str(), vm::clean( want ).c_str() );
    if ( t != t0 || from != from0 || to != to0 ) vm::fail( "replaced-arguments", "replaced() changed its arguments" );
    int n = g.p( .1 ) ? int( g.i( 0, 4000 ) ) : int( g.i( 0, 90 ) ); char c = char( g.i( 1, 126 ) ); auto l = core::line( n, c ), d = core::line( n ); bool ok = l.size() == size_t( n ) && d.size() == size_t( n ); for ( char x : l ) ok = ok && x == c; for ( char x : d ) ok = ok && x == '-';
    if ( !ok ) vm::fail( "line", "line( %d, %d ) or line( %d ) is wrong", n, c, n ); vm::distinct( vm::strhash( ( t + "|" + from + "|" + to ).c_str() ) );
}
template< class T, class U > void cast1( U u ) { T a = core::as<T>( u ), b = static_cast<T>( u ); vm::event(); if ( !( a == b ) ) vm::fail( "as", "as<>( %.17Lg ) gives %.17Lg, a static cast gives %.17Lg", ld( u ), ld( a ), ld( b ) ); vm::distinct( vm::hashd( sizeof( T ) * 64 + sizeof( U ), double( u ) ) ); }
template< class U > void casts( U u )
{
    ld v = ld( u ); cast1<double>( u ); cast1<float>( u ); cast1<long double>( u ); cast1<bool>( u ); bool fl = std::is_floating_point<U>::value;
    if ( !fl || std::fabs( v ) < 2e9L ) { cast1<int>( u ); cast1<long>( u ); cast1<long long>( u ); } if ( !fl || ( v > -1 && v < 4e9L ) ) cast1<unsigned>( u ); if ( !fl || std::fabs( v ) < 32000 ) cast1<short>( u ); if ( !fl || std::fabs( v ) < 127 ) cast1<signed char>( u ); if ( !fl || ( v > -1 && v < 255 ) ) cast1<unsigned char>( u );
}
GROUP( converts, 6000, 100000 ) { double d = g.p( .3 ) ? g.uni( -300, 300 ) : g.p( .5 ) ? g.sgn() * g.logu( 1e-6, 1e12 ) : double( g.i( -9, 9 ) ); casts( d ); casts( float( d ) ); casts( int( g.next() ) ); casts( long( g.next() ) ); casts( short( g.next() ) ); casts( (unsigned char)( g.next() ) ); casts( unsigned( g.next() ) ); casts( g.p( .5 ) ); }
VMON_MAIN
