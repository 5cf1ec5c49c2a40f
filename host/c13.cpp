// C13: reset, linearity, time invariance and isolation of biquad filters.
#include "dsp.hpp"
#include "dsp/biquad.hpp"
#include "num/fixed-point.hpp"
#include <limits>
#include <memory>
#include <new>

template< class T > struct io { static T in( ld v ) { return T( v ); } static ld out( T v ) { return ld( v ); } static ld eps() { return std::numeric_limits<T>::epsilon(); } static ld res() { return 0; } };
template< int I, int F > struct io< num::fixed_point<int32_t, I, F> >
{
    using X = num::fixed_point<int32_t, I, F>; static X in( ld v ) { return X( double( v ) ); } static ld out( X v ) { return v.as_double(); } static ld eps() { return 0; } static ld res() { return std::ldexp( 1.0L, -F ); }
};
template< class T > dsp::BiQuadT<T> mk( Co const & c )
{
    using Q = dsp::BiQuadT<T>; typename Q::B b{ io<T>::in( c.b0 ), io<T>::in( c.b1 ), io<T>::in( c.b2 ) }; typename Q::A a{ io<T>::in( c.a1 ), io<T>::in( c.a2 ) };
    return Q( b, a );
}
template< class Q > Co co( Q const & q )
{
    using T = typename Q::value_type; auto a = q.coeff_a(); auto b = q.coeff_b();
    return { io<T>::out( b.b0 ), io<T>::out( b.b1 ), io<T>::out( b.b2 ), io<T>::out( a.a1 ), io<T>::out( a.a2 ) };
}
static bool same( Co const & a, Co const & b ) { return a.b0 == b.b0 && a.b1 == b.b1 && a.b2 == b.b2 && a.a1 == b.a1 && a.a2 == b.a2; }
template< class T > ld step( dsp::BiQuadT<T> & q, bool tr, int form, ld x )
{
    T v = io<T>::in( x );
    return io<T>::out( tr ? q.step_df2_transposed( v ) : form ? q.step_df2( v ) : q.step( v ) );
}
static bool eqv( ld a, ld b ) { return a == b || ( std::isnan( a ) && std::isnan( b ) ); }

// Several filters in poisoned exactly-sized memory, driven by random operations; a replay of each
// filter's own history on a fresh filter must give the same outputs and state.
template< class T > void trace( vm::Rng & g )
{
    using Q = dsp::BiQuadT<T>;
    struct Shadow { Co c; bool tr; std::vector<std::pair<int, ld>> hist; };
    const int N = 4; unsigned char * mem[N]; Q * f[N]; std::vector<Shadow> sh; uint64_t h = 1;
    bool tr = g.p( .4 );
    for ( int i = 0; i < N; ++i )
    {
        mem[i] = (unsigned char *)::operator new( sizeof( Q ) ); memset( mem[i], 0xA5, sizeof( Q ) ); asm volatile( "" : : "r"( mem[i] ) : "memory" );
        Co c = gen( g, true ); if ( io<T>::eps() == 0 ) c = { g.uni( -1, 1 ), g.uni( -1, 1 ), g.uni( -1, 1 ), g.uni( -.9, .9 ), g.uni( -.3, .05 ) };
        f[i] = new ( mem[i] ) Q( mk<T>( c ) ); c = co( *f[i] ); sh.push_back( { c, tr, {} } ); h = vm::mix( h, hashco( c ) );
    }
    auto verify = [&]( int i, const char * what )
    {
        Q r = mk<T>( sh[i].c ); for ( auto & e : sh[i].hist ) step( r, sh[i].tr, e.first, e.second );
        auto s = f[i]->state(), t = r.state();
        if ( !same( co( *f[i] ), sh[i].c ) ) vm::fail( "coefficients-changed", "after %s filter %d has coefficients %s, it was given %s", what, i, show( co( *f[i] ) ).c_str(), show( sh[i].c ).c_str() );
        if ( !eqv( io<T>::out( s.v1 ), io<T>::out( t.v1 ) ) || !eqv( io<T>::out( s.v2 ), io<T>::out( t.v2 ) ) )
            vm::fail( vm::fmt( "state-after-%s", what ), "after %s filter %d has state [%.12Lg %.12Lg], its own history gives [%.12Lg %.12Lg]", what, i, io<T>::out( s.v1 ), io<T>::out( s.v2 ), io<T>::out( t.v1 ), io<T>::out( t.v2 ) );
    };
    int ops = int( g.i( 10, 40 ) );
    for ( int o = 0; o < ops; ++o )
    {
        int i = int( g.i( 0, N - 1 ) ), j = int( g.i( 0, N - 1 ) ), k = int( g.i( 0, 11 ) ); h = vm::mix( h, uint64_t( i * 100 + j * 20 + k ) );
        const char * what = "step";
        if ( k <= 5 )
        {
            int m = int( g.i( 1, 5 ) );
            for ( int n = 0; n < m; ++n )
            {
                int form = int( g.i( 0, 1 ) ); ld x = io<T>::out( io<T>::in( g.uni( -2, 2 ) ) );
                Q r = mk<T>( sh[i].c ); for ( auto & e : sh[i].hist ) step( r, tr, e.first, e.second );
                ld want = step( r, tr, form, x ), got = step( *f[i], tr, form, x ); vm::event();
                if ( !eqv( want, got ) ) vm::fail( "output-depends-on-others", "filter %d %s gives %.12Lg, its own history replayed gives %.12Lg", i, show( sh[i].c ).c_str(), got, want );
                sh[i].hist.push_back( { form, x } );
            }
        }
        else if ( k == 6 )
        {
            what = "reset"; f[i]->reset(); sh[i].hist.clear(); auto s = f[i]->state();
            if ( io<T>::out( s.v1 ) != 0 || io<T>::out( s.v2 ) != 0 ) vm::fail( "reset-state", "after reset the state is [%.12Lg %.12Lg]", io<T>::out( s.v1 ), io<T>::out( s.v2 ) );
        }
        else if ( k == 7 ) { what = "copy assignment"; *f[i] = *f[j]; sh[i] = sh[j]; }
        else if ( k == 8 && i != j )
        {
            what = "copy construction"; f[i]->~Q(); memset( mem[i], 0x5A, sizeof( Q ) ); asm volatile( "" : : "r"( mem[i] ) : "memory" ); f[i] = new ( mem[i] ) Q( *f[j] ); sh[i] = sh[j];
        }
        else if ( k == 9 ) { what = "swap"; f[i]->swap( *f[j] ); std::swap( sh[i], sh[j] ); if ( i == j ) what = "self swap"; }
        else if ( k == 10 )
        {
            what = "observing"; Q const & q = *f[i]; unsigned char before[ sizeof( Q ) ]; memcpy( before, (void const *)&q, sizeof( Q ) );
            (void)q.coeff_a(); (void)q.coeff_b(); (void)q.state();
            if constexpr( std::is_floating_point<T>::value ) { (void)q.poles(); if ( sh[i].c.b0 != 0 ) (void)q.zeros(); (void)q.is_stable(); (void)response( q, T( g.u() ) ); }
            if ( memcmp( before, (void const *)&q, sizeof( Q ) ) ) vm::fail( "observer-changes", "observing filter %d changed it", i );
        }
        else { what = "temporary copy"; Q q( *f[i] ); for ( int n = 0; n < 3; ++n ) step( q, tr, n % 2, g.uni( -1, 1 ) ); q.reset(); }
        verify( i, what ); if ( j != i ) verify( j, what );
    }
    for ( int i = 0; i < N; ++i ) { verify( i, "the trace" ); f[i]->~Q(); ::operator delete( mem[i] ); }
    vm::distinct( h ); vm::sample( "%d operations on %d filters, first %s", ops, N, show( sh[0].c ).c_str() );
}
// reset after an arbitrary past: identical outputs to a new filter
template< class T > void resets( vm::Rng & g )
{
    Co c = rounded<T>( gen( g ) ); auto q = mk<T>( c ), n = mk<T>( c ); int form = int( g.i( 0, 2 ) ), past = int( g.i( 1, 60 ) );
    for ( int i = 0; i < past; ++i ) step( q, g.p( .5 ), 0, g.uni( -10, 10 ) );
    if ( g.p( .1 ) ) { q.step( std::numeric_limits<T>::infinity() ); q.step( 0 ); }      // even an overflowed state is forgotten
    q.reset();
    for ( int i = 0; i < 20; ++i )
    {
        ld x = ld( T( g.uni( -2, 2 ) ) ), a = step( q, form == 2, form, x ), b = step( n, form == 2, form, x ); vm::event();
        if ( !eqv( a, b ) ) { vm::fail( "reset-not-at-rest", "filter %s, %d samples then reset: sample %d gives %.12Lg, a new filter gives %.12Lg", show( c ).c_str(), past, i, a, b ); break; }
    }
    if ( !same( co( q ), c ) ) vm::fail( "reset-changes-coefficients", "filter %s has coefficients %s after reset", show( c ).c_str(), show( co( q ) ).c_str() );
    vm::distinct( vm::mix( hashco( c ), uint64_t( past ) ) );
}
template< class T > void linear( vm::Rng & g )
{
    Co c = rounded<T>( gen( g, true ) ); long n = g.i( 10, 60 ), d = g.i( 1, 20 ); ld al = ld( T( g.uni( -3, 3 ) ) ), be = ld( T( g.uni( -3, 3 ) ) ); int form = int( g.i( 0, 2 ) );
    auto x1 = signal<T>( g, n ), x2 = signal<T>( g, n ); if ( g.p( .4 ) ) { ld k = std::ldexp( 1.0L, int( g.i( -45, 60 ) ) ); for ( auto & v : x1 ) v = ld( T( v * k ) ); for ( auto & v : x2 ) v = ld( T( v * k ) ); } std::vector<ld> x3; for ( long i = 0; i < n; ++i ) x3.push_back( ld( T( al * x1[ size_t( i ) ] + be * x2[ size_t( i ) ] ) ) );
    ld e = std::numeric_limits<T>::epsilon(), z = std::numeric_limits<T>::min(); Ref r1( c, x1, 2 * e, z ), r2( c, x2, 2 * e, z ), r3( c, x3, 3 * e, z );
    auto a = mk<T>( c ), b = mk<T>( c ), s = mk<T>( c ), l = mk<T>( c );
    for ( long i = 0; i < d; ++i ) if ( step( l, form == 2, form, 0 ) != 0 ) vm::fail( "rest-output", "filter %s at rest answers zero input with a non-zero output", show( c ).c_str() );
    for ( long i = 0; i < n; ++i )
    {
        size_t k = size_t( i ); ld y1 = step( a, form == 2, form, x1[k] ), y2 = step( b, form == 2, form, x2[k] ), y3 = step( s, form == 2, form, x3[k] ), yd = step( l, form == 2, form, x1[k] ); vm::event( 4 );
        ld tol = std::fabs( al ) * r1.tol[k] + std::fabs( be ) * r2.tol[k] + r3.tol[k];
        if ( !vm::close( y3, al * y1 + be * y2, tol ) ) { vm::fail( "not-linear", "filter %s: answer %ld to %.6Lg x1 + %.6Lg x2 is %.12Lg, the combined answers give %.12Lg", show( c ).c_str(), i, al, be, y3, al * y1 + be * y2 ); break; }
        if ( yd != y1 ) { vm::fail( "not-time-invariant", "filter %s: sample %ld of an input delayed by %ld zeros gives %.12Lg instead of %.12Lg", show( c ).c_str(), i, d, yd, y1 ); break; }
    }
    vm::distinct( vm::hashd( hashco( c ), double( al ) ) );
}
GROUP( traced, 2500, 80000 ) { trace<double>( g ); }
GROUP( tracef, 1500, 50000 ) { trace<float>( g ); }
GROUP( tracefx, 1000, 30000 ) { trace< num::fixed_point<int32_t, 15, 16> >( g ); }
GROUP( resetd, 4000, 100000 ) { resets<double>( g ); resets<float>( g ); }
GROUP( lti, 2000, 60000 ) { linear<double>( g ); linear<float>( g ); }
VMON_MAIN
