// C41: results depend on the arguments and the objects used only: not on what was computed before, not on other
// objects, not on what runs at the same time. A workload is a list of calls, each a small program over the
// library whose parameters are indices into small pools (so that calls share some arguments and differ in
// others). Every call's output is compared bit for bit with that of a process in which nothing else ever ran.
// The same calls run interleaved step by step, on free-running threads (also under ThreadSanitizer), and
// several threads observe one object.
#include "vmon.hpp"
#include <atomic>
#include <condition_variable>
#include <functional>
#include <list>
#include <memory>
#include <mutex>
#include <sstream>
#include <thread>
#include <sys/wait.h>
#include "core/core.hpp"
#include "core/core-io.hpp"
#include "num/fixed-point.hpp"
#include "num/fixed-point-io.hpp"
#include "num/matrix.hpp"
#include "num/matrix-io.hpp"
#include "dsp/biquad.hpp"
#include "dsp/biquad-io.hpp"
#include "dsp/biquad-cascade.hpp"
#include "dsp/biquad-cascade-io.hpp"
#include "dsp/biquad-design.hpp"
#include "dsp/chebyshev-design.hpp"
#include "dsp/chebyshev-design-io.hpp"
#include "dsp/filter.hpp"
#include "dsp/onepole.hpp"
#include "dsp/onepole-io.hpp"
#include "dsp/onepole-design.hpp"
#include "dsp/kalman.hpp"
#include "std/algorithm.hpp"
#include "std/utility.hpp"

using FR = dsp::FilterResponse;
enum { NA = 8, VALS = 4 };
struct Call { int op; int a[NA]; bool operator<( Call const & o ) const { return memcmp( this, &o, sizeof *this ) < 0; } };
typedef std::vector<uint64_t> Out;
// --- where a call lets others go on
struct Baton { std::mutex m; std::condition_variable c; int turn = 0; std::vector<char> live; std::vector<uint8_t> plan; size_t at = 0; uint64_t switches = 0;
    int next( int me ) { int n = int( live.size() ); int want = plan.empty() ? me + 1 : plan[ at++ % plan.size() ]; for ( int k = 0; k < n; ++k ) { int i = ( want + k ) % n; if ( live[ size_t( i ) ] ) return i; } return me; } };
static thread_local Baton * baton = nullptr; static thread_local int myturn = 0; static thread_local unsigned jitter = 0;
static void tick()
{
    if ( !baton ) { if ( jitter && ( jitter = jitter * 1664525u + 1013904223u | 1u ) >> 30 == 0 ) std::this_thread::yield(); return; }
    std::unique_lock<std::mutex> l( baton->m ); int n = baton->next( myturn ); if ( n == myturn ) return; ++baton->switches; baton->turn = n; baton->c.notify_all(); baton->c.wait( l, [] { return baton->turn == myturn; } );
}
// --- outputs
static void put( Out & o, double v ) { uint64_t u; memcpy( &u, &v, 8 ); if ( v != v ) u = ~0ull; o.push_back( u ); }
static void put( Out & o, float v ) { put( o, double( v ) ); }
static void put( Out & o, long v ) { o.push_back( uint64_t( v ) ); }
static void put( Out & o, int v ) { put( o, long( v ) ); }
static void put( Out & o, bool v ) { put( o, long( v ) ); }
static void put( Out & o, size_t v ) { o.push_back( v ); }
static void put( Out & o, std::string const & s ) { o.push_back( vm::strhash( s.c_str() ) ); o.push_back( s.size() ); }
template< class T > void put( Out & o, std::complex<T> const & c ) { put( o, c.real() ); put( o, c.imag() ); }
template< class T, int I, int F > void put( Out & o, num::fixed_point<T, I, F> const & x ) { put( o, long( x.underlying_value() ) ); }
template< class T, int N, int M > void put( Out & o, num::matrix<T, N, M> const & m ) { for ( int i = 0; i < m.rows(); ++i ) for ( int j = 0; j < m.columns(); ++j ) put( o, m( i, j ) ); }
template< class X > std::string text( X const & x, int prec ) { std::ostringstream s; s.precision( prec ); s << x; return s.str(); }
// --- pools
template< class T > T val( int i ) { static const double v[] = { .5, -1.25, 3, .0625, 7.75, -20, 1, 0 }; return T( v[ i & 7 ] ); }
template< class T > T freq( int i ) { static const double v[] = { 1000, 440, 9000, 60 }; return T( v[ i & 3 ] ); }
template< class T > T rate( int i ) { static const double v[] = { 48000, 44100, 96000, 20000 }; return T( v[ i & 3 ] ); }
template< class T > T qual( int i ) { static const double v[] = { .70710678, 2, .3, 12 }; return T( v[ i & 3 ] ); }
template< class T > T level( int i ) { static const double v[] = { 6, -6, 0, 20 }; return T( v[ i & 3 ] ); }
template< class T > T signal( int kind, int k ) { switch ( kind & 3 ) { case 0: return T( k == 0 ); case 1: return T( 1 ); case 2: return T( ( k * 37 % 23 ) / 8. - 1 ); default: return T( k & 1 ? -1 : 1 ); } }
template< class T > dsp::BiQuadT<T> section( int b, int p = 0, int q = 1 )
{
    static const double n[4][3] = { { .5, .25, .125 }, { 1, 0, -1 }, { .0625, .125, .0625 }, { 2, 1, .5 } }, a1[4] = { -.5, .3, -1.5, 0 }, a2[4] = { .25, .5, .625, -.25 };
    auto & v = n[ b & 3 ]; return dsp::BiQuadT<T>( { T( v[0] ), T( v[1] ), T( v[2] ) }, { T( a1[ p & 3 ] ), T( a2[ q & 3 ] ) } );
}
template< class C > void coeffs( Out & o, C const & c ) { put( o, c.b.b0 ); put( o, c.b.b1 ); put( o, c.b.b2 ); put( o, c.a.a1 ); put( o, c.a.a2 ); }
// --- the calls
template< class T > void design( Out & o, int const * a )
{
    T g = level<T>( a[1] ), f = freq<T>( a[2] ), fs = rate<T>( a[3] ), q = qual<T>( a[4] ); tick();
    switch ( ( a[0] + 2 * ( a[5] & 1 ) ) % 7 ) { case 0: coeffs( o, dsp::biquad_design<FR::low_pass>( g, f, fs, q ) ); break; case 1: coeffs( o, dsp::biquad_design<FR::high_pass>( g, f, fs, q ) ); break; case 2: coeffs( o, dsp::biquad_design<FR::band_pass>( g, f, fs, q ) ); break; case 3: coeffs( o, dsp::biquad_design<FR::band_stop>( g, f, fs, q ) ); break; case 4: coeffs( o, dsp::biquad_design<FR::low_shelf>( g, f, fs, q ) ); break; case 5: coeffs( o, dsp::biquad_design<FR::high_shelf>( g, f, fs, q ) ); break; default: coeffs( o, dsp::biquad_design<FR::peak_band_eq>( g, f, fs, q ) ); }
}
template< class T > void shelves( Out & o, int const * a )
{
    T g = level<T>( a[1] ), f = freq<T>( a[2] ), fs = rate<T>( a[3] ), q = qual<T>( a[4] ); tick();
    switch ( a[0] % 3 ) { case 0: coeffs( o, dsp::biquad_design<FR::low_shelf>( g, f, fs, q ) ); break; case 1: coeffs( o, dsp::biquad_design<FR::high_shelf>( g, f, fs, q ) ); break; default: coeffs( o, dsp::biquad_design<FR::peak_band_eq>( g, f, fs, q ) ); }
}
template< class T > void levels( Out & o, int const * a )
{
    T v = level<T>( a[0] ) * ( 1 + ( a[1] & 1 ) ), f = freq<T>( a[2] ); tick(); put( o, dsp::dbP_factor( v ) ); put( o, dsp::dbV_factor( v ) ); tick(); T r = std::fabs( val<T>( a[3] & 3 ) ), s = std::fabs( val<T>( a[4] & 3 ) ); put( o, dsp::dbP( r, s ) ); put( o, dsp::dbV( r, s ) ); tick(); put( o, dsp::prewarp( f, rate<T>( a[5] ) ) );
}
template< class T > void cheby( Out & o, int const * a )
{
    T fs = rate<T>( a[0] ), fp = freq<T>( a[1] ), ft = fp * T( 1.5 + .5 * a[2] ), ap = T( .1 + a[3] ), as = T( 20 + 10 * a[4] ); bool hp = a[5] & 1; if ( !( ft < fs * T( .49 ) ) ) ft = ( fp + fs / 2 ) / 2; if ( hp ) std::swap( fp, ft );
    tick(); auto go = [&]( auto const & c ) { put( o, c.info.N ); put( o, c.info.Nex ); put( o, c.info.f3 ); put( o, text( c.info, 9 ) ); for ( size_t i = 0; i < size_t( c.size() ); ++i ) { put( o, c.b[i].b0 ); put( o, c.b[i].b1 ); put( o, c.b[i].b2 ); put( o, c.a[i].a1 ); put( o, c.a[i].a2 ); } tick(); if ( c.size() <= 12 ) { auto q = dsp::make_biquad_cascade<12>( c ); put( o, is_stable( q ) ); for ( int k = 0; k < 12; ++k ) { put( o, step( q, signal<T>( a[6], k ) ) ); tick(); } put( o, response( q, T( .01 ) * ( 1 + a[7] ) ) ); } };
    if ( a[5] & 2 ) go( dsp::chebyshev2_lp_hp( hp ? FR::high_pass : FR::low_pass, fs, fp, ft, ap, as ) ); else go( dsp::chebyshev1_lp_hp( hp ? FR::high_pass : FR::low_pass, fs, fp, ft, ap, as ) );
}
template< class T > void biquad( Out & o, int const * a )
{
    auto q = section<T>( a[0], a[5], a[7] ); tick();
    for ( int k = 0; k < 6 + 5 * a[3]; ++k ) { T x = signal<T>( a[1], k ) * val<T>( a[2] ); put( o, a[4] == 0 ? q.step( x ) : a[4] == 1 ? q.step_df2( x ) : q.step_df2_transposed( x ) ); tick(); }
    put( o, response( q, T( .03 ) * ( 1 + a[5] ) ) ); tick(); auto p = q.poles(); put( o, p.s0 ); put( o, p.s1 ); auto z = q.zeros(); put( o, z.s0 ); put( o, z.s1 ); put( o, q.is_stable() ); tick(); put( o, text( q, 4 + a[6] ) ); auto r = q; auto s = section<T>( a[7], a[4], a[0] ); s.swap( r ); tick(); put( o, s.step( T( 1 ) ) ); put( o, r.step( T( 1 ) ) ); q.reset(); put( o, q.state().v1 ); put( o, q.step( val<T>( a[2] ) ) );
    dsp::BiQuadT<T> zpk( z, p, T( 1 + a[2] ) ); put( o, zpk.coeff_b().b0 ); put( o, zpk.coeff_b().b1 ); put( o, zpk.coeff_a().a1 ); put( o, zpk.coeff_a().a2 );
}
template< class T > void cascade( Out & o, int const * a )
{
    dsp::BiQuadCascadeT<T, 5> c; for ( int k = 0; k < a[0]; ++k ) c.append( section<T>( a[1] + k, a[6] + 2 * k, a[7] + k ) ); tick();
    for ( int k = 0; k < 5 + 4 * a[4]; ++k ) { T x = signal<T>( a[2], k ); put( o, a[3] == 0 ? step( c, x ) : a[3] == 1 ? step_df2( c, x ) : step_df2_transposed( c, x ) ); tick(); }
    put( o, response( c, T( .04 ) * ( 1 + a[5] ) ) ); put( o, is_stable( c ) ); put( o, text( c, 5 + a[6] ) ); if ( a[0] ) { auto old = c.replace( 0, section<T>( a[7], a[1], a[4] ) ); put( o, old.coeff_b().b0 ); put( o, old.state().v1 ); c.insert( 0, section<T>( a[6], a[2], a[5] ) ); c.remove( 1 ); tick(); put( o, step( c, T( 1 ) ) ); reset( c ); put( o, step( c, T( 1 ) ) ); } put( o, c.size() );
}
template< class T > void onepole( Out & o, int const * a )
{
    auto d = a[0] & 1 ? dsp::onepole_design<FR::high_pass>( freq<T>( a[1] ), rate<T>( a[2] ) ) : dsp::onepole_design<FR::low_pass>( freq<T>( a[1] ), rate<T>( a[2] ) ); put( o, d.b.b0 ); put( o, d.a.a1 ); auto p = dsp::make_onepole( d ); tick();
    for ( int k = 0; k < 6 + 5 * a[3]; ++k ) { put( o, p.step( signal<T>( a[4], k ) ) ); tick(); }
    put( o, response( p, T( .02 ) * ( 1 + a[5] ) ) ); put( o, p.poles().s0 ); put( o, p.is_stable() ); put( o, text( p, 5 + a[6] ) ); auto q = p; tick(); q.reset(); put( o, q.step( T( 1 ) ) ); put( o, p.step( T( 1 ) ) );
}
template< class T > void filters( Out & o, int const * a )
{
    T f = freq<T>( a[1] ), fs = rate<T>( a[2] ), q = qual<T>( a[3] ); auto run = [&]( auto & x ) { tick(); for ( int k = 0; k < 8 + 8 * a[5]; ++k ) { put( o, x( signal<T>( a[4], k ) ) ); tick(); } auto y = x; put( o, y( T( 1 ) ) ); put( o, x( T( 2 ) ) ); };
    if ( a[0] & 1 ) { dsp::Hpf<T> x( f, fs, q ); run( x ); } else { dsp::Lpf<T> x( f, fs, q ); run( x ); }
}
template< class T, int M, int U > void kalman( Out & o, int const * a )
{
    using K = num::kalman<T, 2, M, U>; double dt = .25 * ( 1 + a[0] ); typename K::H_t H( T( 0 ) ); H( 0, 0 ) = T( 1 - ( a[1] & 1 ) ); H( 0, 1 ) = T( a[1] & 1 ? 1. : .5 * ( a[1] >> 1 ) ); if ( M == 2 ) H( M - 1, 1 ) = T( 1 );
    typename K::R_t R( T( 0 ) ); for ( int i = 0; i < M; ++i ) R( i, i ) = T( .5 + a[2] ); typename K::B_t B( T( .5 ) ); double q = .25 * a[3];
    K k( T( dt ), typename K::A_t{ T( 1 ), T( dt ), T( 0 ), T( 1 ) }, B, H, typename K::Q_t{ T( q ), T( 0 ), T( 0 ), T( q ) }, R, typename K::P_t{ T( 2 ), T( .5 ), T( .5 ), T( 1 + a[4] ) }, typename K::xhat_t{ T( val<double>( a[5] ) ), T( 1 ) } );
    for ( int n = 0; n < 2 + 3 * a[6]; ++n ) { typename K::u_t u( T( .25 * ( n % 3 ) ) ); typename K::z_t z( T( 1 + .5 * ( ( n * 5 + a[7] ) % 4 ) ) ); k.update( u, z ); tick(); put( o, k.system_state() ); put( o, k.kalman_gain() ); put( o, k.estimation_error_covariance() ); put( o, k.time() ); tick(); }
    auto c = k; c.update( typename K::u_t( T( 1 ) ), typename K::z_t( T( 0 ) ) ); put( o, c.system_state() ); put( o, k.system_state() );
}
template< class T > void matrices( Out & o, int const * a )
{
    num::matrix<T, 2, 2> m{ val<T>( a[0] ), val<T>( a[1] ), val<T>( a[2] ), val<T>( a[3] + 4 ) }, n( val<T>( a[4] ) ); n( 0, 0 ) = val<T>( a[5] + 2 ); tick(); put( o, m * n ); tick(); put( o, m + n ); put( o, m - n ); put( o, m * val<T>( a[6] ) ); put( o, num::inverted( m ) ); tick(); put( o, num::transposed( m ) ); put( o, m + val<T>( a[6] ) ); put( o, m * m );
    num::matrix<T, 3, 3> p( val<T>( a[1] ) ), q( val<T>( a[3] ) ); p( 2, 0 ) = val<T>( a[7] ); tick(); put( o, p * q ); put( o, q * p - p ); put( o, num::eye<T, 4>() ); num::rowvec<T, 3> r( val<T>( a[2] ) ); num::colvec<T, 3> c( val<T>( a[0] ) ); c( 1 ) = val<T>( a[6] ); tick(); put( o, r * c ); put( o, c * r ); put( o, p * c ); put( o, r * p ); put( o, text( p, 4 + a[5] ) ); put( o, num::inverted( val<T>( a[6] ) ) );
}
template< class X > void fixedp( Out & o, int const * a )
{
    X x( val<double>( a[0] ) ), y( val<double>( a[1] + ( a[1] == 7 ? 0 : 0 ) ) ); if ( y.underlying_value() == 0 ) y = X( 1.5 ); tick(); put( o, x + y ); put( o, x - y ); put( o, x / y ); tick(); X s( 0 ); for ( int k = 0; k < 3 + a[2]; ++k ) { s = s + X( .25 ) * x / X( 4. ); tick(); put( o, s ); } put( o, x < y ); put( o, x == y ); put( o, x >= y ); put( o, x.template as<double>() ); put( o, x.template as<int>() ); put( o, text( x, 5 + a[3] ) ); put( o, X( val<float>( a[4] ) ) ); put( o, X( a[5] ) );
}
static void misc( Out & o, int const * a )
{
    long s = 0; for ( auto i : core::range( a[0], a[0] + 5 + a[1] ) ) { s = s * 3 + i; tick(); } put( o, s ); double d = 0; for ( auto x : core::range( double( a[2] ), 6., .5 + a[3] ) ) { d += x; tick(); } put( o, d ); size_t n = 0; for ( auto i : core::indices( std::vector<int>( size_t( a[4] + 2 ) ) ) ) n = n * 5 + i; put( o, n ); int k = 0; for ( auto x : core::range( a[5] ) ) { s += x; if ( ++k > 4 ) break; tick(); } put( o, s );
    put( o, core::line( 5 + a[6], char( 'a' + a[7] ) ) ); tick(); put( o, core::replaced( "one two one", a[6] & 1 ? "one" : "two", a[7] & 1 ? "x" : "" ) ); put( o, text( std::vector<double>( size_t( a[0] ), val<double>( a[1] ) ), 4 + a[2] ) );
    int v[6] = { 1, 2, 3, 4, 5, 6 }, w[6]; std20::copy( v, v + 6, w ); std20::fill( v, v + a[3] + 1, a[4] ); tick(); put( o, std20::equal( v, v + 6, w ) ); for ( int i = 0; i < 6; ++i ) put( o, v[i] * 100 + w[i] ); auto z = dsp::solve( 1., val<double>( a[5] ), val<double>( a[6] ) ); put( o, z.s0 ); put( o, z.s1 );
}
enum { OPS = 24 };
static Out exec( Call const & c )
{
    Out o; auto a = c.a;
    switch ( c.op )
    {
        case 0: design<double>( o, a ); break; case 1: design<float>( o, a ); break; case 2: shelves<double>( o, a ); break; case 3: levels<double>( o, a ); break; case 4: levels<float>( o, a ); break; case 5: cheby<double>( o, a ); break;
        case 6: biquad<double>( o, a ); break; case 7: biquad<float>( o, a ); break; case 8: cascade<double>( o, a ); break; case 9: cascade<float>( o, a ); break; case 10: onepole<double>( o, a ); break; case 11: onepole<float>( o, a ); break;
        case 12: filters<double>( o, a ); break; case 13: filters<float>( o, a ); break; case 14: kalman<double, 1, 1>( o, a ); break; case 15: kalman<float, 2, 1>( o, a ); break; case 16: kalman<num::fixed_point<int32_t, 15, 16>, 1, 1>( o, a ); break; case 17: kalman<double, 2, 2>( o, a ); break;
        case 18: matrices<double>( o, a ); break; case 19: matrices<float>( o, a ); break; case 20: fixedp<num::fixed_point<int32_t, 15, 16>>( o, a ); break; case 21: fixedp<num::fixed_point<int16_t, 8, 7>>( o, a ); break; case 22: misc( o, a ); break; default: cheby<float>( o, a ); break;
    }
    return o;
}
static std::string show( Call const & c ) { std::string s = vm::fmt( "call %d(", c.op ); for ( int v : c.a ) s += vm::fmt( " %d", v ); return s + " )"; }
// --- the pristine oracle
static bool all( int fd, void * p, size_t n, bool rd ) { auto c = static_cast<char *>( p ); while ( n ) { ssize_t k = rd ? read( fd, c, n ) : write( fd, c, n ); if ( k <= 0 ) return false; c += k; n -= size_t( k ); } return true; }
struct Server
{
    int to[2], from[2];
    Server()
    {
        if ( pipe( to ) || pipe( from ) ) abort();
        pid_t p = fork(); if ( p < 0 ) abort();
        if ( p ) { close( to[0] ); close( from[1] ); return; }
        close( to[1] ); close( from[0] ); Call c;
        while ( all( to[0], &c, sizeof c, true ) )
        {
            pid_t k = fork(); if ( k < 0 ) _exit( 1 );
            if ( k == 0 ) { Out o = exec( c ); uint64_t n = o.size(); all( from[1], &n, 8, false ); all( from[1], o.data(), 8 * n, false ); _exit( 0 ); }
            int st = 1; waitpid( k, &st, 0 ); if ( st != 0 ) _exit( 1 );
        }
        _exit( 0 );
    }
} static server;
static Out const & pristine( Call const & c )
{
    static std::map<Call, Out> seen; auto it = seen.find( c ); if ( it != seen.end() ) return it->second;
    Out o; uint64_t n; if ( !all( server.to[1], const_cast<Call *>( &c ), sizeof c, false ) || !all( server.from[0], &n, 8, true ) ) { vm::fail( "dies-alone", "%s does not finish in a process of its own", show( c ).c_str() ); exit( 3 ); }
    o.resize( n ); if ( !all( server.from[0], o.data(), 8 * n, true ) ) exit( 3 ); vm::counter( "pristine_runs" ); vm::distinct( vm::mix( vm::mix( uint64_t( c.op ), uint64_t( c.a[0] * 512 + c.a[1] * 64 + c.a[2] * 8 + c.a[3] ) ), uint64_t( c.a[4] * 512 + c.a[5] * 64 + c.a[6] * 8 + c.a[7] ) ) );
    if ( seen.size() > 60000 ) seen.clear(); return seen[c] = o;
}
static void judge( Call const & c, Out const & got, const char * key, std::string const & before )
{
    Out const & want = pristine( c ); vm::event( want.size() );
    if ( got == want ) return;
    size_t k = 0; while ( k < got.size() && k < want.size() && got[k] == want[k] ) ++k; double x = 0, y = 0; if ( k < got.size() ) memcpy( &x, &got[k], 8 ); if ( k < want.size() ) memcpy( &y, &want[k], 8 );
    vm::fail( vm::fmt( "%s:op%d", key, c.op ), "%s: result %zu of %zu is %.17g (%016llx), in a process of its own it is %.17g (%016llx); %s", show( c ).c_str(), k, want.size(), x, k < got.size() ? (unsigned long long) got[k] : 0ull, y, k < want.size() ? (unsigned long long) want[k] : 0ull, before.c_str() );
}
static Call random( vm::Rng & g, std::vector<Call> const & past, int op = -1 )
{
    Call c; memset( &c, 0, sizeof c );
    if ( !past.empty() && g.p( .65 ) ) { c = past[ g.next() % past.size() ]; int n = int( g.i( 0, 2 ) ); for ( int k = 0; k < n; ++k ) c.a[ g.i( 0, NA - 1 ) ] = int( g.i( 0, VALS - 1 ) ); if ( g.p( .1 ) ) c.op ^= 1; if ( op >= 0 ) c.op = op; return c; }
    c.op = op >= 0 ? op : int( g.i( 0, OPS - 1 ) ); for ( int & v : c.a ) v = int( g.i( 0, VALS - 1 ) ); return c;
}
GROUP( histories, 60, 1500 )      // a long history of calls in one process
{
    std::vector<Call> past; int n = int( g.i( 20, 80 ) ); std::string last; int only = g.p( .3 ) ? int( g.i( 0, OPS - 1 ) ) : -1;
    for ( int k = 0; k < n; ++k ) { Call c = random( g, past, only ); Out o = exec( c ); judge( c, o, "depends-on-history", "called before: " + last ); if ( g.p( .1 ) ) judge( c, exec( c ), "depends-on-history", "called twice" ); past.push_back( c ); last = show( c ); vm::counter( "calls" ); }
    if ( vm::st().idx < 2 ) vm::sample( "%d calls, the last is %s", n, last.c_str() );
}
template< class F > static void fly( std::vector<std::thread> & ts, F f ) { ts.emplace_back( f ); }
GROUP( interleaved, 300, 3000 )   // two to four calls advance step by step in a random order
{
    int n = int( g.i( 2, 4 ) ); std::vector<Call> cs; int op = g.p( .7 ) ? int( g.p( .7 ) ? g.i( 5, 17 ) : g.i( 0, OPS - 1 ) ) : -1; for ( int k = 0; k < n; ++k ) cs.push_back( random( g, cs, op ) );
    Baton b; b.live.assign( size_t( n ), 1 ); int kind = int( g.i( 0, 2 ) ); if ( kind ) { b.plan.resize( size_t( g.i( 3, 200 ) ) ); for ( auto & p : b.plan ) p = uint8_t( g.i( 0, n - 1 ) ); if ( kind == 2 ) for ( size_t k = 1; k < b.plan.size(); ++k ) if ( g.p( .8 ) ) b.plan[k] = b.plan[k-1]; }
    std::vector<Out> os( size_t( n ), Out{} ); std::vector<std::thread> ts;
    for ( int k = 0; k < n; ++k ) fly( ts, [&, k]
    {
        baton = &b; myturn = k; { std::unique_lock<std::mutex> l( b.m ); b.c.wait( l, [&] { return b.turn == k; } ); }
        os[ size_t( k ) ] = exec( cs[ size_t( k ) ] );
        std::unique_lock<std::mutex> l( b.m ); b.live[ size_t( k ) ] = 0; b.turn = b.next( k ); b.c.notify_all();
    } );
    for ( auto & t : ts ) t.join();
    std::string with; for ( auto & c : cs ) with += show( c ) + " "; for ( int k = 0; k < n; ++k ) judge( cs[ size_t( k ) ], os[ size_t( k ) ], "depends-on-others", "interleaved: " + with );
    uint64_t h = 0; for ( auto p : b.plan ) h = vm::mix( h, p ); vm::distinct( vm::mix( h, vm::strhash( with.c_str() ) ) ); vm::counter( "switches", b.switches ); vm::counter( "interleavings" ); if ( vm::st().idx < 2 ) vm::sample( "%s interleaved with %llu switches", with.c_str(), (unsigned long long) b.switches );
}
GROUP( threads, 100, 1500 )        // free-running threads, each with objects of its own
{
    int n = int( g.i( 2, 4 ) ), len = int( g.i( 5, 20 ) ); std::vector<std::vector<Call>> cs( static_cast<size_t>( n ) ); std::vector<Call> pool; int op = g.p( .5 ) ? int( g.i( 0, OPS - 1 ) ) : -1;
    for ( auto & l : cs ) for ( int k = 0; k < len; ++k ) { l.push_back( random( g, pool, op ) ); pool.push_back( l.back() ); }
    std::vector<std::vector<Out>> os( static_cast<size_t>( n ) ); std::atomic<int> ready{ 0 }; std::vector<std::thread> ts;
    for ( int k = 0; k < n; ++k ) fly( ts, [&, k, seed = unsigned( g.next() ) | 1u] { jitter = seed; ++ready; while ( ready < n ) std::this_thread::yield(); for ( auto & c : cs[ size_t( k ) ] ) os[ size_t( k ) ].push_back( exec( c ) ); } );
    for ( auto & t : ts ) t.join();
    for ( int k = 0; k < n; ++k ) for ( size_t i = 0; i < size_t( len ); ++i ) judge( cs[ size_t( k ) ][i], os[ size_t( k ) ][i], "depends-on-threads", vm::fmt( "%d threads", n ) );
    vm::counter( "concurrent_calls", uint64_t( n * len ) );
}
// several threads observe one object
template< class F > static void observe( vm::Rng & g, const char * what, F f )
{
    int n = int( g.i( 2, 4 ) ); Out want; f( want ); std::vector<Out> os( static_cast<size_t>( n ) ); std::atomic<int> ready{ 0 }; std::vector<std::thread> ts;
    for ( int k = 0; k < n; ++k ) fly( ts, [&, k] { ++ready; while ( ready < n ) std::this_thread::yield(); for ( int r = 0; r < 5; ++r ) { os[ size_t( k ) ].clear(); f( os[ size_t( k ) ] ); } } );
    for ( auto & t : ts ) t.join();
    vm::event( want.size() * size_t( n ) ); vm::counter( "shared_observations", uint64_t( 5 * n ) ); for ( auto & o : os ) if ( o != want ) vm::fail( std::string( "observers-disturb:" ) + what, "%s observed by %d threads: a thread sees something else than a single observer", what, n );
}
template< class T > static void shared( vm::Rng & g )
{
    int a = int( g.i( 0, 3 ) ), b = int( g.i( 0, 3 ) ); T f = T( g.uni( 0, .5 ) );
    auto q0 = section<T>( a, b, a + b ); for ( int k = 0; k < 9; ++k ) q0.step( signal<T>( b, k ) ); auto const q = q0;
    observe( g, "section", [&]( Out & o ) { put( o, q.is_stable() ); auto p = q.poles(); put( o, p.s0 ); put( o, p.s1 ); auto z = q.zeros(); put( o, z.s0 ); put( o, response( q, f ) ); put( o, response( q, f / 2 ) ); put( o, text( q, 7 ) ); put( o, q.state().v1 ); put( o, q.coeff_a().a1 ); auto c = q; put( o, c.step( T( 1 ) ) ); } );
    dsp::BiQuadCascadeT<T, 4> c0( section<T>( a ), section<T>( b ) ); for ( int k = 0; k < 9; ++k ) step( c0, signal<T>( b, k ) ); auto const c = c0;
    observe( g, "cascade", [&]( Out & o ) { put( o, is_stable( c ) ); put( o, response( c, f ) ); put( o, text( c, 7 ) ); put( o, c.size() ); put( o, c.state( 1 ).v2 ); auto d = c; put( o, step( d, T( 1 ) ) ); } );
    auto p0 = dsp::make_onepole( dsp::onepole_design<FR::low_pass>( freq<T>( a ), rate<T>( b ) ) ); p0.step( T( 1 ) ); auto const p = p0;
    observe( g, "onepole", [&]( Out & o ) { put( o, p.is_stable() ); put( o, p.poles().s0 ); put( o, response( p, f ) ); put( o, text( p, 7 ) ); auto d = p; put( o, d.step( T( 1 ) ) ); } );
    using K = num::kalman<T, 2, 1, 1>; K k0( T( .5 ), { T( 1 ), T( .5 ), T( 0 ), T( 1 ) }, { T( .5 ), T( 1 ) }, { T( 1 ), T( 0 ) }, { T( .1 ), T( 0 ), T( 0 ), T( .1 ) }, typename K::R_t( T( 1 ) ), { T( 1 ), T( 0 ), T( 0 ), T( 1 ) }, { T( 0 ), T( a ) } ); for ( int k = 0; k < 5; ++k ) k0.update( typename K::u_t( T( 1 ) ), typename K::z_t( T( b ) ) ); auto const k = k0;
    observe( g, "estimator", [&]( Out & o ) { put( o, k.system_state() ); put( o, k.kalman_gain() ); put( o, k.estimation_error_covariance() ); put( o, k.time() ); auto d = k; d.update( typename K::u_t( T( 1 ) ), typename K::z_t( T( 2 ) ) ); put( o, d.system_state() ); } );
    num::matrix<T, 2, 2> const m{ T( 1 ), T( 2 ), T( a ), T( 5 ) }; num::matrix<T, 2, 2> const n{ T( b ), T( 1 ), T( 0 ), T( b ) };
    observe( g, "matrix", [&]( Out & o ) { put( o, m * n ); put( o, m + n ); put( o, num::transposed( m ) ); put( o, num::inverted( m ) ); put( o, text( m, 5 ) ); for ( auto v : m ) put( o, v ); auto d = m; d( 0, 0 ) = T( 4 ); put( o, d ); } );
    auto const cf = dsp::chebyshev1_lp_hp( FR::low_pass, T( 48000 ), freq<T>( a & 1 ), T( 12000 ), T( 1 ), T( 40 ) );
    observe( g, "design", [&]( Out & o ) { auto x = dsp::make_biquad_cascade<12>( cf ); put( o, response( x, f ) ); put( o, text( cf.info, 6 ) ); put( o, size_t( cf.size() ) ); } );
    auto const r = core::range( 0, 20, 3 ); num::fixed_point<int32_t, 15, 16> const x( 2.5 ), y( -1.25 );
    observe( g, "range and number", [&]( Out & o ) { for ( auto i : r ) put( o, i ); put( o, x * y ); put( o, x / y ); put( o, text( x, 6 ) ); put( o, x < y ); } );
    vm::distinct( vm::hashd( uint64_t( a * 4 + b ), double( f ) ) );
}
GROUP( observers, 40, 800 ) { if ( g.p( .5 ) ) shared<double>( g ); else shared<float>( g ); }
VMON_MAIN
