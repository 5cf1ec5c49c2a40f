// C14: poles, zeros, stability verdict and construction from zeros, poles and gain.
#include "dsp.hpp"
#include "dsp/biquad.hpp"
#include <limits>

template< class T > dsp::BiQuadT<T> mk( Co const & c )
{
    using Q = dsp::BiQuadT<T>; typename Q::B b{ T( c.b0 ), T( c.b1 ), T( c.b2 ) }; typename Q::A a{ T( c.a1 ), T( c.a2 ) };
    return Q( b, a );
}
template< class Z > lc L( Z const & z ) { return lc( z.real(), z.imag() ); }
// p, q: coefficients of x^2 + p x + q whose roots r0, r1 should be
static bool isroots( lc r0, lc r1, ld p, ld q, ld eps )
{
    ld M = std::max( std::fabs( p ), std::sqrt( std::fabs( q ) ) ) + 1e-300L; lc s = r0 + r1 + p, m = r0 * r1 - q;
    return std::abs( s ) <= 16 * eps * M && std::abs( m ) <= 32 * eps * M * M;
}
static void badroots( const char * what, lc r0, lc r1, ld p, ld q )
{
    auto r = roots( p, q );
    vm::fail( what, "%s of x^2%+.12Lg x%+.12Lg reported as (%.9Lg,%.9Lg) (%.9Lg,%.9Lg), roots are (%.9Lg,%.9Lg) (%.9Lg,%.9Lg)", what, p, q, r0.real(), r0.imag(), r1.real(), r1.imag(), r.r0.real(), r.r0.imag(), r.r1.real(), r.r1.imag() );
}
template< class T > void one( Co const & c )
{
    auto const q = mk<T>( c ); ld eps = std::numeric_limits<T>::epsilon();
    auto p = q.poles(); vm::event();
    if ( !isroots( L( p.s0 ), L( p.s1 ), c.a1, c.a2, eps ) ) badroots( "poles", L( p.s0 ), L( p.s1 ), c.a1, c.a2 );
    auto sp = dsp::solve( T( 2 ), T( 2 * c.a1 ), T( 2 * c.a2 ) );
    if ( !isroots( L( sp.s0 ), L( sp.s1 ), c.a1, c.a2, eps ) ) badroots( "solve", L( sp.s0 ), L( sp.s1 ), c.a1, c.a2 );
    if ( c.b0 != 0 )
    {
        auto z = q.zeros(); vm::event(); ld zp = c.b1 / c.b0, zq = c.b2 / c.b0;
        if ( !isroots( L( z.s0 ), L( z.s1 ), zp, zq, eps * 2 ) ) badroots( "zeros", L( z.s0 ), L( z.s1 ), zp, zq );
    }
    ld M = std::max( std::fabs( c.a1 ), std::sqrt( std::fabs( c.a2 ) ) ) + 1, disc = std::sqrt( std::fabs( c.a1 * c.a1 - 4 * c.a2 ) );
    ld margin = 64 * eps * M * M / std::max( disc, std::sqrt( eps ) * M ), mp = maxpole( c ); bool st = q.is_stable(); vm::event();
    if ( std::fabs( mp - 1 ) > margin )
    {
        if ( st != ( mp <= 1 ) ) vm::fail( "stability-verdict", "a=[%.12Lg %.12Lg] has largest pole magnitude %.12Lg but is reported %s", c.a1, c.a2, mp, st ? "stable" : "not stable" );
        vm::counter( mp <= 1 ? "stable_filters" : "unstable_filters" );
    }
    vm::distinct( hashco( c ) );
}
template< class T > void any( vm::Rng & g )
{
    Co c = gen( g );
    switch ( g.i( 0, 9 ) )
    {
        case 0: c.a1 = g.uni( -2.2, 2.2 ); c.a2 = c.a1 * c.a1 / 4; break;                       // (nearly) repeated
        case 1: { ld r = g.uni( .9, 1.1 ), t = PIl * g.u(); c.a1 = -2 * r * std::cos( t ); c.a2 = r * r; break; }
        case 2: { ld r = g.sgn() * g.uni( .95, 1.05 ), s = g.uni( -.9, .9 ); c.a1 = -( r + s ); c.a2 = r * s; break; }
        case 3: { ld r = 1 + g.sgn() * g.logu( 1e-6, .5 ), t = PIl * g.u(); c.a1 = -2 * r * std::cos( t ); c.a2 = r * r; break; }
        case 4: c.a1 = g.sgn() * g.logu( 1e-6, 1e6 ); c.a2 = g.sgn() * g.logu( 1e-6, 1e6 ); break;
        case 5: c.a1 = g.sgn() * g.logu( .1, 1e4 ); c.a2 = g.sgn() * g.logu( 1e-8, 1e-2 ); break; // one pole far larger
        case 6: { ld r = g.uni( -1.5, 1.5 ), s = g.uni( -1.5, 1.5 ); c.a1 = -( r + s ); c.a2 = r * s; c.b1 = c.b0 * g.uni( -3, 3 ); c.b2 = c.b0 * g.uni( -3, 3 ); break; }
        case 7: c.b0 = g.uni( .5, 2 ); c.b1 = 2 * c.b0 * g.uni( -1.5, 1.5 ); c.b2 = c.b1 * c.b1 / 4 / c.b0; break;
        default: break;
    }
    one<T>( rounded<T>( c ) );
}
// poles exactly on the unit circle, computed without rounding
template< class T > void edge( vm::Rng & g )
{
    static const double E[][2] = { { 0, 1 }, { 0, -1 }, { 1, 0 }, { -1, 0 }, { -2, 1 }, { 2, 1 }, { .5, -.5 }, { -.5, -.5 }, { .75, -.25 }, { -.25, -.75 }, { 0, 0 }, { 1.5, .5 }, { -1.5, .5 } };
    for ( auto & e : E )
    {
        Co c; c.b0 = 1; c.a1 = e[0]; c.a2 = e[1]; bool st = mk<T>( c ).is_stable(); vm::event();
        if ( !st ) vm::fail( "stability-on-circle", "a=[%g %g] has its largest pole magnitude exactly 1 (or 0) but is reported not stable", e[0], e[1] );
        one<T>( c );
    }
    double d = std::ldexp( 1.0, int( -g.i( 3, std::numeric_limits<T>::digits / 2 - 3 ) ) );
    Co c; c.a2 = -1 - d; if ( mk<T>( c ).is_stable() ) vm::fail( "stability-verdict", "a=[0 %.17g] is reported stable", double( c.a2 ) );
    c.a2 = 1 + d; if ( mk<T>( c ).is_stable() ) vm::fail( "stability-verdict", "a=[0 %.17g] is reported stable", double( c.a2 ) );
    c.a2 = 1 - d; if ( !mk<T>( c ).is_stable() ) vm::fail( "stability-verdict", "a=[0 %.17g] is reported not stable", double( c.a2 ) );
    c.a2 = 0; c.a1 = g.sgn() * ( 1 + d ); if ( mk<T>( c ).is_stable() ) vm::fail( "stability-verdict", "a=[%.17g 0] is reported stable", double( c.a1 ) );
    c.a1 = g.sgn() * ( 1 - d ); if ( !mk<T>( c ).is_stable() ) vm::fail( "stability-verdict", "a=[%.17g 0] is reported not stable", double( c.a1 ) );
}
template< class T > void zpk( vm::Rng & g )
{
    using Q = dsp::BiQuadT<T>; using S = typename Q::Solution; using C = typename Q::Complex;
    auto pick = [&]( ld lim )
    {
        S s; switch ( g.i( 0, 3 ) )
        {
            case 0: { T r = T( lim * g.uni( -1, 1 ) ); s = S{ C{ r, 0 }, C{ r, 0 } }; break; }
            case 1: { T r = T( lim * g.uni( -1, 1 ) ), i = T( g.sgn() * lim * g.uni( .01, 1 ) ); if ( g.p( .2 ) ) r = 0; s = S{ C{ r, i }, C{ r, -i } }; break; }
            case 2: s = S{ C{ T( lim * g.uni( -1, 1 ) ), 0 }, C{ 0, 0 } }; break;
            default: s = S{ C{ T( lim * g.uni( -1, 1 ) ), 0 }, C{ T( lim * g.uni( -1, 1 ) ), 0 } };
        }
        return s;
    };
    S z = pick( g.p( .5 ) ? 1 : 3 ), p = pick( .99L ); T k = T( g.sgn() * g.logu( 1e-3, 1e3 ) );
    Q q( z, p, k ); vm::event(); auto a = q.coeff_a(); auto b = q.coeff_b(); ld eps = 16 * std::numeric_limits<T>::epsilon();
    auto poly = []( S s, ld & c1, ld & c2 ) { lc x = L( s.s0 ), y = L( s.s1 ); c1 = -( x + y ).real(); c2 = ( x * y ).real(); };
    ld z1, z2, p1, p2; poly( z, z1, z2 ); poly( p, p1, p2 );
    ld zm = std::abs( L( z.s0 ) ) + std::abs( L( z.s1 ) ), pm = std::abs( L( p.s0 ) ) + std::abs( L( p.s1 ) ); ld K = k;
    if ( !vm::close( b.b0, K, eps * std::fabs( K ) ) || !vm::close( b.b1, K * z1, eps * std::fabs( K ) * zm ) || !vm::close( b.b2, K * z2, eps * std::fabs( K ) * zm * zm ) )
        vm::fail( "zpk-numerator", "zeros (%.9Lg,%.9Lg) (%.9Lg,%.9Lg) gain %.9Lg give b=[%.9Lg %.9Lg %.9Lg], expected [%.9Lg %.9Lg %.9Lg]", ld( z.s0.real() ), ld( z.s0.imag() ), ld( z.s1.real() ), ld( z.s1.imag() ), K, ld( b.b0 ), ld( b.b1 ), ld( b.b2 ), K, K * z1, K * z2 );
    if ( !vm::close( a.a1, p1, eps * pm ) || !vm::close( a.a2, p2, eps * pm * pm ) )
        vm::fail( "zpk-denominator", "poles (%.9Lg,%.9Lg) (%.9Lg,%.9Lg) give a=[%.9Lg %.9Lg], expected [%.9Lg %.9Lg]", ld( p.s0.real() ), ld( p.s0.imag() ), ld( p.s1.real() ), ld( p.s1.imag() ), ld( a.a1 ), ld( a.a2 ), p1, p2 );
    auto st = q.state(); if ( st.v1 != 0 || st.v2 != 0 ) vm::fail( "zpk-state", "a filter built from zeros and poles is not at rest" );
    // and back: a filter rebuilt from its own zeros, poles and gain has the same coefficients
    Co c{ ld( b.b0 ), ld( b.b1 ), ld( b.b2 ), ld( a.a1 ), ld( a.a2 ) };
    Q r( q.zeros(), q.poles(), b.b0 ); auto ra = r.coeff_a(); auto rb = r.coeff_b(); ld e2 = 8 * eps;
    if ( !vm::close( rb.b1, c.b1, e2 * ( std::fabs( K ) * zm + 1e-30L ) ) || !vm::close( rb.b2, c.b2, e2 * std::fabs( K ) * ( zm * zm + 1e-30L ) ) || !vm::close( ra.a1, c.a1, e2 * ( pm + 1e-30L ) ) || !vm::close( ra.a2, c.a2, e2 * ( pm * pm + 1e-30L ) ) )
        vm::fail( "zpk-roundtrip", "%s rebuilt from its zeros, poles and gain has b1=%.9Lg b2=%.9Lg a1=%.9Lg a2=%.9Lg", show( c ).c_str(), ld( rb.b1 ), ld( rb.b2 ), ld( ra.a1 ), ld( ra.a2 ) );
    vm::distinct( hashco( c ) ); vm::sample( "zeros (%.6Lg,%.6Lg).. poles (%.6Lg,%.6Lg).. gain %.6Lg -> %s", ld( z.s0.real() ), ld( z.s0.imag() ), ld( p.s0.real() ), ld( p.s0.imag() ), K, show( c ).c_str() );
}
GROUP( rootsd, 12000, 500000 ) { any<double>( g ); }
GROUP( rootsf, 12000, 500000 ) { any<float>( g ); }
GROUP( edges, 100, 1000 ) { edge<double>( g ); edge<float>( g ); }
GROUP( zpkd, 6000, 200000 ) { zpk<double>( g ); }
GROUP( zpkf, 6000, 200000 ) { zpk<float>( g ); }
VMON_MAIN
