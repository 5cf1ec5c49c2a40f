// C15: the reported frequency response is what the filter does to a signal.
#include "dsp.hpp"
#include "dsp/biquad.hpp"
#include <limits>

template< class T, class S > dsp::BiQuadT<T, S> mk( Co const & c )
{
    using Q = dsp::BiQuadT<T, S>; typename Q::B b{ S( c.b0 ), S( c.b1 ), S( c.b2 ) }; typename Q::A a{ S( c.a1 ), S( c.a2 ) };
    return Q( b, a );
}
template< class T > ld respTol( Co const & c, ld fn ) { return 12 * std::numeric_limits<T>::epsilon() * ( 1 + 2 * PIl * std::fabs( fn ) ) * Hcond( c, fn ); }
static double freq( vm::Rng & g )
{
    switch ( g.i( 0, 9 ) ) { case 0: return 0; case 1: return .5; case 2: return .25; case 3: return g.logu( 1e-6, .5 ); case 4: return .5 - g.logu( 1e-6, .4 ); case 5: return g.uni( -1, 1 ); default: return g.uni( 0, .5 ); }
}
template< class T, class S > void dft( vm::Rng & g )
{
    Co c = rounded<S>( gen( g, true, g.p( .1 ) ? .985L : .95L ) ); c = rounded<T>( c );
    if ( maxpole( c ) > .987L ) return;
    auto q = mk<T, S>( c ); auto r = q;
    if ( g.p( .5 ) ) for ( int i = 0; i < 5; ++i ) q.step( T( g.uni( -9, 9 ) ) );             // a used filter has the same response
    long n = long( std::log( 1e-17L ) / std::log( std::max( .1L, maxpole( c ) ) ) * 1.2L ) + 40;
    std::vector<ld> h( size_t( n ), 0 ), x( size_t( n ), 0 ); x[0] = 1; int form = int( g.i( 0, 2 ) );
    for ( auto & v : h ) { T in = &v == &h[0] ? 1 : 0; v = form == 0 ? r.step( in ) : form == 1 ? r.step_df2( in ) : r.step_df2_transposed( in ); vm::event(); }
    Ref ref( c, x, std::numeric_limits<T>::epsilon(), std::numeric_limits<T>::min() ); ld err = 0; for ( auto v : ref.tol ) err += v;
    auto s0 = q.state();
    for ( int k = 0; k < 6; ++k )
    {
        T fn = T( freq( g ) ); lc sum = 0; for ( long i = 0; i < n; ++i ) sum += h[ size_t( i ) ] * cis( -2 * PIl * fn * i );
        auto const & cq = q; auto R = response( cq, fn ); lc got( R.real(), R.imag() ); vm::event(); ld tol = respTol<T>( c, fn ) + err;
        if ( std::abs( got - sum ) > tol || std::isnan( std::abs( got ) ) ) vm::fail( "response-vs-impulse", "%s: response( %.9g ) is (%.9Lg,%.9Lg), the transform of its impulse response is (%.9Lg,%.9Lg), tolerance %.3Lg", show( c ).c_str(), double( fn ), got.real(), got.imag(), sum.real(), sum.imag(), tol );
        if ( tol < .01L * std::abs( sum ) ) vm::distinct( vm::hashd( hashco( c ), double( fn ) ) );
    }
    auto s1 = q.state(); auto a = q.coeff_a(); auto b = q.coeff_b();
    if ( s0.v1 != s1.v1 || s0.v2 != s1.v2 || ld( a.a1 ) != c.a1 || ld( a.a2 ) != c.a2 || ld( b.b0 ) != c.b0 || ld( b.b1 ) != c.b1 || ld( b.b2 ) != c.b2 ) vm::fail( "response-changes-filter", "computing a response changed the filter %s", show( c ).c_str() );
    vm::sample( "%s: %ld impulse response samples", show( c ).c_str(), n );
}
// steady-state output for a sinusoid of any amplitude and phase
template< class T > void sinus( vm::Rng & g )
{
    Co c = rounded<T>( gen( g, true, .93L ) ); if ( maxpole( c ) > .94L ) return;
    auto q = mk<T, T>( c ); T fn = T( freq( g ) ); auto R = response( q, fn ); lc h( R.real(), R.imag() ); ld amp = g.logu( .1, 10 ), ph = 2 * PIl * g.u();
    long settle = long( std::log( 1e-3L * std::numeric_limits<T>::epsilon() ) / std::log( std::max( .1L, maxpole( c ) ) ) * 1.3L ) + 30; int form = int( g.i( 0, 2 ) );
    std::vector<ld> x; for ( long i = 0; i < settle + 20; ++i ) x.push_back( ld( T( amp * std::cos( 2 * PIl * fn * i + ph ) ) ) );
    Ref ref( c, x, 2 * std::numeric_limits<T>::epsilon(), std::numeric_limits<T>::min() );
    for ( long i = 0; i < settle + 20; ++i )
    {
        T in = T( x[ size_t( i ) ] ); ld y = form == 0 ? q.step( in ) : form == 1 ? q.step_df2( in ) : q.step_df2_transposed( in ); vm::event();
        if ( i < settle ) continue;
        ld want = amp * std::abs( h ) * std::cos( 2 * PIl * fn * i + ph + std::arg( h ) ), tol = amp * respTol<T>( c, fn ) + ref.tol[ size_t( i ) ] + 1e-12L * amp;
        if ( !vm::close( y, want, tol ) ) { vm::fail( "sinusoid", "%s: a sinusoid at %.9g comes out as %.9Lg at sample %ld, the reported response predicts %.9Lg (tolerance %.3Lg)", show( c ).c_str(), double( fn ), y, i, want, tol ); break; }
    }
    vm::distinct( vm::hashd( hashco( c ), double( fn ) + amp ) );
}
// any coefficients, stable or not: the response is the transfer function on the unit circle
template< class T > void formula( vm::Rng & g )
{
    Co c = rounded<T>( gen( g ) ); auto const q = mk<T, T>( c );
    for ( int k = 0; k < 4; ++k )
    {
        T fn = T( freq( g ) ); lc want = H( c, fn ); if ( std::abs( den_( c, fn ) ) < 1e-3L ) continue;
        auto R = response( q, fn ); lc got( R.real(), R.imag() ); vm::event();
        if ( !( std::abs( got - want ) <= respTol<T>( c, fn ) ) ) vm::fail( "response-formula", "%s: response( %.9g ) is (%.9Lg,%.9Lg), H is (%.9Lg,%.9Lg)", show( c ).c_str(), double( fn ), got.real(), got.imag(), want.real(), want.imag() );
        auto N = response( q, -fn ); if ( !( std::abs( lc( N.real(), -N.imag() ) - got ) <= respTol<T>( c, fn ) ) ) vm::fail( "response-conjugate", "%s: response( %.9g ) and response( %.9g ) are not conjugate", show( c ).c_str(), double( fn ), -double( fn ) );
        vm::distinct( vm::hashd( hashco( c ), double( fn ) ) );
    }
}
GROUP( dftd, 1200, 40000 ) { dft<double, double>( g ); }
GROUP( dftf, 1200, 40000 ) { dft<float, float>( g ); }
GROUP( sind, 800, 30000 ) { sinus<double>( g ); }
GROUP( sinf_, 800, 30000 ) { sinus<float>( g ); }
GROUP( formd, 4000, 150000 ) { formula<double>( g ); formula<float>( g ); }
VMON_MAIN
