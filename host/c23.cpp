// C23: one-pole filters: recursion, reset, isolation, pole and frequency response.
#include "dsp.hpp"
#include "dsp/onepole.hpp"
#include "num/fixed-point.hpp"
#include <limits>
#include <new>

template< class T > struct io { static T in( ld v ) { return T( v ); } static ld out( T v ) { return ld( v ); } static constexpr bool real = true; static ld eps() { return std::numeric_limits<T>::epsilon() * ( sizeof( T ) > 8 ? 4 : 1 ); } static ld res() { return std::numeric_limits<T>::min(); } };
template< int I, int F > struct io< num::fixed_point<int32_t, I, F> >
{
    using X = num::fixed_point<int32_t, I, F>; static X in( ld v ) { return X( double( v ) ); } static ld out( X v ) { return v.as_double(); } static constexpr bool real = false; static ld eps() { return 0; } static ld res() { return std::ldexp( 1.0L, -F ); }
};
template< class T > dsp::OnePoleT<T> mk( ld b0, ld a1 ) { using Q = dsp::OnePoleT<T>; typename Q::B b{ io<T>::in( b0 ) }; typename Q::A a{ io<T>::in( a1 ) }; return Q( b, a ); }
template< class Q > Co co( Q const & q ) { using T = typename Q::value_type; Co c; c.b0 = io<T>::out( q.coeff_b().b0 ); c.a1 = io<T>::out( q.coeff_a().a1 ); return c; }
static bool eqv( ld a, ld b ) { return a == b || ( std::isnan( a ) && std::isnan( b ) ); }
static ld pole( vm::Rng & g ) { switch ( g.i( 0, 7 ) ) { case 4: return g.sgn() * g.logu( 1e-30, 1e-3 ); case 0: return 0; case 1: return g.sgn(); case 2: return g.uni( -1.5, 1.5 ); case 3: return g.sgn() * ( 1 - g.logu( 1e-6, .5 ) ); default: return g.uni( -1, 1 ); } }
static ld gain( vm::Rng & g ) { return g.p( .1 ) ? 0 : g.sgn() * g.logu( 1e-3, 1e3 ); }
// gains that go with the pole: equal, opposite, unity at one of the ends
static ld gainfor( vm::Rng & g, ld a, ld other ) { if ( !g.p( .2 ) ) return other; const ld n[] = { a, -a, 1 - std::fabs( a ), 1 + a, 1 - a, 1, -1, a * a, ( 1 + a ) / 2, ( 1 - a ) / 2 }; ld v = n[ g.i( 0, 9 ) ]; return v == 0 || std::fabs( v ) > 1e-18L ? v : other; }

template< class T > void recursion( vm::Rng & g )
{
    bool fx = !io<T>::real; ld a1 = fx ? g.uni( -.97, .97 ) : pole( g ); if ( g.p( .08 ) ) a1 = g.pick( { .5, -.5, .25, -.25, .75, -.75, .9, -.9 } ); auto q = mk<T>( gainfor( g, a1, fx ? g.uni( -2, 2 ) : gain( g ) ), a1 ); Co c = co( q );
    long n = g.p( .1 ) ? g.i( 100, 300 ) : g.i( 4, 60 ); auto x = fx ? std::vector<ld>() : signal<double>( g, n ); if ( fx ) for ( long i = 0; i < n; ++i ) x.push_back( g.uni( -8, 8 ) ); for ( auto & v : x ) v = io<T>::out( io<T>::in( v ) );
    if constexpr( io<T>::real ) if ( g.p( .25 ) ) x = coincide<T>( g, q, n, []( auto & f, T v ) { return f.step( v ); } );
    Ref r( c, x, io<T>::eps(), io<T>::res() ); uint64_t h = hashco( c );
    for ( size_t i = 0; i < x.size(); ++i )
    {
        if ( !( std::fabs( r.y[i] ) < ( fx ? 16000 : 1e25L ) ) ) break; h = vm::hashd( h, double( x[i] ) );
        ld y = io<T>::out( q.step( io<T>::in( x[i] ) ) ); vm::event();
        if ( !vm::close( y, r.y[i], r.tol[i] ) ) { vm::fail( "recursion", "b0=%.9Lg a1=%.9Lg: output %zu is %.12Lg, the recursion gives %.12Lg (tolerance %.3Lg)", c.b0, c.a1, i, y, r.y[i], r.tol[i] ); break; }
    }
    vm::distinct( h ); vm::sample( "b0=%.9Lg a1=%.9Lg, %ld samples", c.b0, c.a1, n );
}
template< class T > void trace( vm::Rng & g )
{
    using Q = dsp::OnePoleT<T>; const int N = 3; struct Sh { Co c; std::vector<ld> h; }; unsigned char * m[N]; Q * f[N]; std::vector<Sh> s; uint64_t h = 5; bool fx = !io<T>::real;
    for ( int i = 0; i < N; ++i ) { m[i] = (unsigned char *)::operator new( sizeof( Q ) ); memset( m[i], 0xC3, sizeof( Q ) ); asm volatile( "" : : "r"( m[i] ) : "memory" ); ld a1 = fx ? g.uni( -.9, .9 ) : pole( g ); f[i] = new ( m[i] ) Q( mk<T>( gainfor( g, a1, g.uni( -2, 2 ) ), a1 ) ); s.push_back( { co( *f[i] ), {} } ); h = vm::mix( h, hashco( s.back().c ) ); }
    auto replay = [&]( int i ) { Q q = mk<T>( s[i].c.b0, s[i].c.a1 ); for ( auto x : s[i].h ) q.step( io<T>::in( x ) ); return q; };
    auto verify = [&]( int i, const char * what )
    {
        Q r = replay( i ); Co c = co( *f[i] );
        if ( c.b0 != s[i].c.b0 || c.a1 != s[i].c.a1 ) vm::fail( "coefficients-changed", "after %s b0=%.9Lg a1=%.9Lg, given b0=%.9Lg a1=%.9Lg", what, c.b0, c.a1, s[i].c.b0, s[i].c.a1 );
        if ( !eqv( io<T>::out( f[i]->state().v1 ), io<T>::out( r.state().v1 ) ) ) vm::fail( vm::fmt( "state-after-%s", what ), "after %s the state is %.12Lg, its own history gives %.12Lg", what, io<T>::out( f[i]->state().v1 ), io<T>::out( r.state().v1 ) );
    };
    int ops = int( g.i( 8, 30 ) );
    for ( int o = 0; o < ops; ++o )
    {
        int i = int( g.i( 0, N - 1 ) ), j = int( g.i( 0, N - 1 ) ), k = int( g.i( 0, 8 ) ); const char * what = "step"; h = vm::mix( h, uint64_t( i * 50 + j * 10 + k ) );
        if ( k <= 3 ) { ld x = io<T>::out( io<T>::in( g.uni( -2, 2 ) ) ); Q r = replay( i ); ld w = io<T>::out( r.step( io<T>::in( x ) ) ), y = io<T>::out( f[i]->step( io<T>::in( x ) ) ); vm::event(); if ( !eqv( w, y ) ) vm::fail( "output-depends-on-others", "gives %.12Lg, its own history replayed %.12Lg", y, w ); s[i].h.push_back( x ); }
        else if ( k == 4 ) { what = "reset"; f[i]->reset(); s[i].h.clear(); if ( io<T>::out( f[i]->state().v1 ) != 0 ) vm::fail( "reset-state", "state %.9Lg after reset", io<T>::out( f[i]->state().v1 ) ); }
        else if ( k == 5 ) { what = "copy assignment"; *f[i] = *f[j]; s[i] = s[j]; }
        else if ( k == 6 && i != j ) { what = "copy construction"; f[i]->~Q(); memset( m[i], 0x5A, sizeof( Q ) ); asm volatile( "" : : "r"( m[i] ) : "memory" ); f[i] = new ( m[i] ) Q( *f[j] ); s[i] = s[j]; }
        else if ( k == 7 ) { what = "swap"; f[i]->swap( *f[j] ); std::swap( s[i], s[j] ); }
        else if ( k == 8 ) { what = "observing"; Q const & q = *f[i]; if constexpr( io<T>::real ) { (void)q.poles(); (void)q.is_stable(); (void)response( q, T( .1 ) ); } (void)q.state(); }
        verify( i, what ); if ( i != j ) verify( j, what );
    }
    for ( int i = 0; i < N; ++i ) { verify( i, "the trace" ); f[i]->~Q(); ::operator delete( m[i] ); }
    vm::distinct( h );
}
template< class T > void analysis( vm::Rng & g )
{
    ld a1 = pole( g ); auto q = mk<T>( gainfor( g, a1, gain( g ) ), a1 ); Co c = co( q ); ld eps = std::max<ld>( std::numeric_limits<T>::epsilon(), std::numeric_limits<double>::epsilon() );   // pi is given to double precision
    auto p = q.poles(); vm::event( 2 );
    if ( !vm::close( p.s0.real(), -c.a1, 4 * eps * std::fabs( c.a1 ) ) || p.s0.imag() != 0 ) vm::fail( "pole", "a1=%.9Lg: reported pole (%.9Lg,%.9Lg)", c.a1, ld( p.s0.real() ), ld( p.s0.imag() ) );
    T A = T( g.sgn() * g.logu( .01, 100 ) ), B = T( g.p( .2 ) ? g.sgn() * g.logu( 1e-28, 1 ) : g.uni( -10, 10 ) ); auto sv = dsp::onepole::solve( A, B ); if ( !vm::close( sv.s0.real(), -ld( B ) / A, 4 * eps * std::fabs( ld( B ) / A ) ) || sv.s0.imag() != 0 ) vm::fail( "solve", "root of %.9Lg x + %.9Lg reported as %.9Lg", ld( A ), ld( B ), ld( sv.s0.real() ) );
    if ( std::fabs( std::fabs( c.a1 ) - 1 ) > 8 * eps || std::fabs( c.a1 ) == 1 ) if ( q.is_stable() != ( std::fabs( c.a1 ) <= 1 ) ) vm::fail( "stability", "a1=%.9Lg is reported %s", c.a1, q.is_stable() ? "stable" : "not stable" );
    auto const & cq = q; auto s0 = q.state().v1;
    for ( int k = 0; k < 3; ++k )
    {
        T fn = T( k == 0 ? ( g.p( .5 ) ? 0 : .5 ) : k == 1 ? g.uni( -.5, .5 ) : g.p( .5 ) ? g.uni( -3, 3 ) : g.sgn() * g.logu( 1e-12, .5 ) ); lc want = H( c, fn ); ld tol = 12 * eps * ( 1 + 2 * PIl * std::fabs( fn ) ) * Hcond( c, fn );
        if ( std::abs( den_( c, fn ) ) < 1e-3L ) continue;
        auto R = response( cq, fn ); lc got( R.real(), R.imag() ); vm::event();
        if ( !( std::abs( got - want ) <= tol ) ) vm::fail( "response", "b0=%.9Lg a1=%.9Lg: response( %.9g ) is (%.9Lg,%.9Lg), expected (%.9Lg,%.9Lg)", c.b0, c.a1, double( fn ), got.real(), got.imag(), want.real(), want.imag() );
        if ( std::fabs( c.a1 ) < .97L )
        {   // transform of the impulse response it actually produces
            auto r = mk<T>( c.b0, c.a1 ); long n = long( std::log( 1e-18L ) / std::log( std::max( .1L, std::fabs( c.a1 ) ) ) ) + 20; lc sum = 0; ld mag = 0; for ( long i = 0; i < n; ++i ) { ld y = r.step( T( i == 0 ) ); sum += y * cis( -2 * PIl * fn * i ); mag += std::fabs( y ); vm::event(); }
            if ( !( std::abs( got - sum ) <= tol + 40 * eps * mag / ( 1 - std::fabs( c.a1 ) ) ) ) vm::fail( "response-vs-impulse", "b0=%.9Lg a1=%.9Lg: response( %.9g ) is (%.9Lg,%.9Lg), the impulse response transforms to (%.9Lg,%.9Lg)", c.b0, c.a1, double( fn ), got.real(), got.imag(), sum.real(), sum.imag() );
        }
    }
    if ( q.state().v1 != s0 || co( q ).a1 != c.a1 || co( q ).b0 != c.b0 ) vm::fail( "response-changes-filter", "computing a response changed the filter" );
    // from any past, reset gives a new filter
    auto n = mk<T>( c.b0, c.a1 ); for ( int i = 0; i < 9; ++i ) q.step( T( g.uni( -9, 9 ) ) ); if ( g.p( .2 ) ) { q.step( g.p( .5 ) ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::quiet_NaN() ); q.step( T( 0 ) ); } q.reset();
    for ( int i = 0; i < 5; ++i ) { T x = T( g.uni( -1, 1 ) ); ld y = q.step( x ), w = n.step( x ); if ( !eqv( y, w ) ) { vm::fail( "reset-not-at-rest", "after reset the output is %.12Lg, a new filter gives %.12Lg", y, w ); break; } }
    dsp::OnePoleT<T> d; dsp::OnePoleT<T> bo( typename dsp::OnePoleT<T>::B{ T( c.b0 ) } ); T x = T( g.uni( -3, 3 ) ); if ( d.step( x ) != 0 || !vm::close( bo.step( x ), c.b0 * x, 4 * eps * std::fabs( c.b0 * x ) ) || !vm::close( bo.step( x ), c.b0 * x, 4 * eps * std::fabs( c.b0 * x ) ) ) vm::fail( "constructors", "a default-constructed or b-only one-pole filter gives a wrong output" );
    vm::distinct( hashco( c ) );
}
template< class T > void longruns( vm::Rng & g ) { auto q = mk<T>( gain( g ), g.p( .5 ) ? g.uni( -.99, .99 ) : g.sgn() * ( 1 - g.logu( 1e-4, .5 ) ) ); Co c = co( q ); steady<T>( g, c, "recursion", vm::fmt( "b0=%.9Lg a1=%.9Lg", c.b0, c.a1 ), [&]( T v ) { return q.step( v ); } ); }
GROUP( longrun, 50, 800 ) { longruns<double>( g ); longruns<float>( g ); }
GROUP( recd, 4000, 100000 ) { recursion<double>( g ); }
GROUP( recl, 1500, 40000 ) { recursion<ld>( g ); trace<ld>( g ); analysis<ld>( g ); }
GROUP( recf, 4000, 100000 ) { recursion<float>( g ); }
GROUP( recx, 1500, 50000 ) { recursion< num::fixed_point<int32_t, 15, 16> >( g ); }
GROUP( traces, 3000, 80000 ) { trace<double>( g ); trace<float>( g ); trace< num::fixed_point<int32_t, 15, 16> >( g ); }
GROUP( analyse, 4000, 100000 ) { analysis<double>( g ); analysis<float>( g ); }
VMON_MAIN
