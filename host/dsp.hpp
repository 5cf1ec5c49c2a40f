// Long double filter oracles and coefficient generators shared by C12-C24.
#ifndef DSP_ORACLE_HPP
#define DSP_ORACLE_HPP
#include "vmon.hpp"
#include <cassert>
#include <complex>
#include <limits>
#include <vector>
typedef long double ld;
typedef std::complex<ld> lc;
static const ld PIl = 3.14159265358979323846264338327950288L;

struct Co { ld b0 = 0, b1 = 0, b2 = 0, a1 = 0, a2 = 0; };
inline std::string show( Co const & c ) { return vm::fmt( "b=[%.9Lg %.9Lg %.9Lg] a=[%.9Lg %.9Lg]", c.b0, c.b1, c.b2, c.a1, c.a2 ); }
inline uint64_t hashco( Co const & c ) { uint64_t h = 7; for ( ld v : { c.b0, c.b1, c.b2, c.a1, c.a2 } ) h = vm::hashd( h, double( v ) ); return h; }
inline lc cis( ld w ) { return lc( std::cos( w ), std::sin( w ) ); }
inline lc num_( Co const & c, ld fn ) { lc z = cis( -2 * PIl * fn ), z2 = cis( -4 * PIl * fn ); return c.b0 + c.b1 * z + c.b2 * z2; }
inline lc den_( Co const & c, ld fn ) { lc z = cis( -2 * PIl * fn ), z2 = cis( -4 * PIl * fn ); return ld( 1 ) + c.a1 * z + c.a2 * z2; }
inline lc H( Co const & c, ld fn ) { return num_( c, fn ) / den_( c, fn ); }
// how much one relative unit of coefficient rounding can change H
inline ld Hcond( Co const & c, ld fn )
{
    ld d = std::abs( den_( c, fn ) ), n = std::fabs( c.b0 ) + std::fabs( c.b1 ) + std::fabs( c.b2 );
    return ( n + std::abs( H( c, fn ) ) * ( 1 + std::fabs( c.a1 ) + std::fabs( c.a2 ) ) ) / d;
}
// roots of x^2 + p x + q, computed without cancellation
struct Roots { lc r0, r1; };
inline Roots roots( ld p, ld q )
{
    ld d = p * p / 4 - q;
    if ( d < 0 ) { ld s = std::sqrt( -d ); return { lc( -p / 2, s ), lc( -p / 2, -s ) }; }
    ld s = std::sqrt( d ), r = p > 0 ? -p / 2 - s : -p / 2 + s;
    return { lc( r, 0 ), lc( r == 0 ? 0 : q / r, 0 ) };
}
inline ld maxpole( Co const & c ) { auto r = roots( c.a1, c.a2 ); return std::max( std::abs( r.r0 ), std::abs( r.r1 ) ); }

// Difference equation in long double, with a rounding-error bound for any realisation computed in
// a number type with relative precision eps and absolute resolution res.
struct Ref
{
    std::vector<ld> y, tol, w; ld wmax = 0, ymax = 0;
    bool usable = true;
    Ref( Co const & c, std::vector<ld> const & x, ld eps, ld res )
    {
        size_t n = x.size(); y.resize( n ); tol.resize( n ); w.resize( n );
        std::vector<ld> hA( n ), ew( n ), ey( n ), inj( n );
        auto at = []( std::vector<ld> const & v, long i ) { return i < 0 ? ld( 0 ) : v[ size_t( i ) ]; };
        ld A1 = std::fabs( c.a1 ), A2 = std::fabs( c.a2 ), B0 = std::fabs( c.b0 ), B1 = std::fabs( c.b1 ), B2 = std::fabs( c.b2 );
        for ( long i = 0; i < long( n ); ++i )
        {
            size_t k = size_t( i );
            y[k] = c.b0 * x[k] + c.b1 * at( x, i - 1 ) + c.b2 * at( x, i - 2 ) - c.a1 * at( y, i - 1 ) - c.a2 * at( y, i - 2 );
            w[k] = x[k] - c.a1 * at( w, i - 1 ) - c.a2 * at( w, i - 2 );
            hA[k] = ( i == 0 ? 1 : 0 ) - c.a1 * at( hA, i - 1 ) - c.a2 * at( hA, i - 2 );
            ymax = std::max( ymax, std::fabs( y[k] ) ); wmax = std::max( wmax, std::fabs( w[k] ) );
        }
        // direct form II: errors enter the recursion through w; transposed: through the two states and the output
        std::vector<ld> iw( n ), iy( n );
        for ( long i = 0; i < long( n ); ++i )
        {
            size_t k = size_t( i );
            auto X = [&]( long j ) { return std::fabs( at( x, j ) ); }; auto Y = [&]( long j ) { return std::fabs( at( y, j ) ); };
            iw[k] = eps * ( X( i ) + A1 * std::fabs( at( w, i - 1 ) ) + A2 * std::fabs( at( w, i - 2 ) ) ) + res * 3;
            iy[k] = eps * ( B0 * X( i ) + B1 * X( i - 1 ) + B2 * X( i - 2 ) + A1 * Y( i - 1 ) + A2 * Y( i - 2 ) + Y( i ) ) + res * 6;
        }
        for ( size_t k = 0; k < n; ++k )
            for ( size_t j = 0; j <= k; ++j ) { ew[k] += std::fabs( hA[ k - j ] ) * iw[j]; ey[k] += std::fabs( hA[ k - j ] ) * iy[j]; }
        for ( long i = 0; i < long( n ); ++i )
        {
            size_t k = size_t( i );
            ld df2 = B0 * ew[k] + B1 * at( ew, i - 1 ) + B2 * at( ew, i - 2 )
                   + eps * ( B0 * std::fabs( w[k] ) + B1 * std::fabs( at( w, i - 1 ) ) + B2 * std::fabs( at( w, i - 2 ) ) ) + 4 * res;
            tol[k] = 6 * std::max( df2, ey[k] );
        }
    }
};

// Coefficients of many kinds; kind is chosen at random.
inline Co gen( vm::Rng & g, bool stable_only = false, ld pmax = 0.995L )
{
    Co c;
    auto poles = [&]( ld lim )
    {
        if ( g.p( .6 ) ) { ld r = lim * std::sqrt( ld( g.u() ) ), t = PIl * g.u(); c.a1 = -2 * r * std::cos( t ); c.a2 = r * r; }
        else if ( g.p( .3 ) ) { ld p = lim * g.uni( -1, 1 ); c.a1 = -2 * p; c.a2 = p * p; }
        else { ld p = lim * g.uni( -1, 1 ), q = lim * g.uni( -1, 1 ); c.a1 = -( p + q ); c.a2 = p * q; }
    };
    switch ( g.i( 0, stable_only ? 5 : 7 ) )
    {
        case 0: case 1: poles( pmax ); break;
        case 2: poles( pmax * g.uni( .2, .9 ) ); break;
        case 3: break;                                              // no feedback
        case 4: c.a1 = g.uni( -1, 1 ) * pmax; break;                // first order
        case 5: c.a2 = g.uni( -1, 1 ) * pmax; break;
        case 6: c.a1 = g.uni( -3, 3 ); c.a2 = g.uni( -2, 2 ); break; // possibly unstable
        default: c.a1 = g.i( -2, 2 ); c.a2 = g.i( -1, 1 );           // on and around the unit circle
    }
    ld s = g.p( .3 ) ? g.logu( 1e-3, 1e3 ) : 1;
    c.b0 = s * g.uni( -2, 2 ); c.b1 = s * g.uni( -2, 2 ); c.b2 = s * g.uni( -2, 2 );
    switch ( g.i( 0, 9 ) )
    {
        case 0: c.b0 = 0; break;
        case 1: c.b1 = 0; c.b2 = 0; break;
        case 2: c.b2 = 0; break;
        case 3: c.b0 = c.b1 = 0; break;
        case 4: c.b0 = g.i( -3, 3 ); c.b1 = g.i( -3, 3 ); c.b2 = g.i( -3, 3 ); break;
        case 5: c.b1 = 0; if ( g.p( .7 ) ) c.a1 = 0; if ( std::fabs( c.a2 ) >= pmax && stable_only ) c.a2 = pmax * g.uni( -1, 1 ); break; // even polynomials: states that alternate with zero
        default: break;
    }
    return c;
}
template< class T > Co rounded( Co c ) { return { ld( T( c.b0 ) ), ld( T( c.b1 ) ), ld( T( c.b2 ) ), ld( T( c.a1 ) ), ld( T( c.a2 ) ) }; }
// a signal exactly representable in T
template< class T > std::vector<ld> signal( vm::Rng & g, long n )
{
    std::vector<ld> x( size_t( n ), ld( 0 ) ); int k = int( g.i( 0, 7 ) ); double a = g.p( .3 ) ? g.logu( 1e-4, 1e4 ) : g.p( .12 ) ? g.logu( 1e-12, 1e12 ) : 1, f = g.u() * .5, b = g.uni( -1, 1 );
    for ( long i = 0; i < n; ++i )
    {
        double v = 0;
        switch ( k )
        {
            case 0: v = i == 0 ? a : 0; break;
            case 1: v = a; break;
            case 2: v = a * std::sin( 2 * M_PI * f * i ); break;
            case 3: v = a * g.uni( -1, 1 ); break;
            case 4: v = a * ( i % 2 ? -1 : 1 ); break;
            case 5: v = double( g.i( -5, 5 ) ); break;
            case 6: v = g.p( .1 ) ? a * g.uni( -1, 1 ) : 0; break;
            default: v = a * ( b + .3 * g.n() );
        }
        x[ size_t( i ) ] = ld( T( v ) );
    }
    return x;
}
// A signal steered by what the filter itself does: the next sample makes the output coincide with the
// sample, with zero, or with the previous output; or it repeats the previous sample or output. These
// are the histories at which a shortcut ("nothing changes", "already settled", "silence") would trigger.
template< class T, class Q, class Step > std::vector<ld> coincide( vm::Rng & g, Q q, long n, Step step )
{
    std::vector<ld> x; T last = T( 0 ), out = T( 0 ); double lim = 1e6;
    auto sane = [&]( T v ) { double a = std::fabs( double( v ) ); return v == T( 0 ) || ( a > 1e-20 && a < lim ); };
    long again = 0;
    for ( long i = 0; i < n; ++i )
    {
        T v = last; int k = again > 0 ? 0 : int( g.i( 0, 9 ) ); if ( again > 0 ) --again;
        if ( k == 0 ) {}
        else if ( k == 1 ) v = out;
        else if ( k == 2 ) v = T( 0 );
        else if ( k == 3 ) v = T( -last );
        else if ( k <= 5 ) v = T( g.p( .3 ) ? double( g.i( -3, 3 ) ) : g.uni( -2, 2 ) );
        else
        {
            auto f = [&]( T u ) { Q c( q ); return T( step( c, u ) ); };
            double y0 = double( f( T( 0 ) ) ), y1 = double( f( T( 1 ) ) ), b = y1 - y0, t = k == 6 ? -y0 / b : k <= 8 ? y0 / ( 1 - b ) : ( double( out ) - y0 ) / b;
            v = T( t ); if ( !sane( v ) ) v = T( g.uni( -1, 1 ) );
            T u = v; for ( int s = 0; s < 6; ++s ) u = std::nextafter( u, T( -1e30 ) );
            bool hit = false;
            for ( int s = 0; s < 12 && !hit; ++s ) { T y = f( u ); hit = sane( u ) && y == ( k == 6 ? T( 0 ) : k <= 8 ? u : out ); if ( hit ) v = u; else u = std::nextafter( u, T( 1e30 ) ); }
            if ( hit ) { vm::counter( k == 6 ? "coincidence_zero" : k <= 8 ? "coincidence_input" : "coincidence_previous" ); again = g.i( 0, 2 ); }
        }
        if ( !sane( v ) ) v = T( 0 );
        x.push_back( ld( v ) ); out = T( step( q, v ) ); last = v; if ( !sane( out ) ) break;
    }
    while ( long( x.size() ) < n ) x.push_back( 0 );
    return x;
}
// long monotonous signals: constant, silent, alternating, slow square, periodic; something new only now and then
inline std::vector<double> monotonous( vm::Rng & g, long n )
{
    std::vector<double> x( size_t( n ), 0. ); int k = int( g.i( 0, 6 ) ); double a = g.p( .5 ) ? 1 : g.sgn() * g.logu( 1e-6, 1e6 ); long per = g.i( 2, 50 ), half = g.i( 300, 3000 ), event = g.i( n / 2, n - 1 ), burst = g.i( 1, 20 );
    for ( long i = 0; i < n; ++i )
    {
        double v = 0;
        switch ( k )
        {
            case 0: v = a; break;
            case 1: v = i < burst ? a * g.uni( -1, 1 ) : 0; break;
            case 2: v = i & 1 ? -a : a; break;
            case 3: v = ( i / half ) & 1 ? 0 : a; break;
            case 4: v = a * std::sin( 2 * M_PI * double( i % per ) / double( per ) ); break;
            case 5: v = i >= event ? a : 0; break;
            default: v = i < event ? a : -a;
        }
        if ( i > event && i <= event + burst && k != 5 ) v = a * g.uni( -1, 1 );
        x[ size_t( i ) ] = v;
    }
    return x;
}
// a filter fed such a signal against the difference equation, within a bound for the whole run
template< class T, class Step > void steady( vm::Rng & g, Co const & c, const char * key, std::string const & name, Step step )
{
    long n = g.i( 3000, vm::st().thorough ? 60000 : 9000 ); auto x = monotonous( g, n ); for ( auto & v : x ) v = double( T( v ) );
    ld A = std::fabs( c.a1 ) + std::fabs( c.a2 ), B = std::fabs( c.b0 ) + std::fabs( c.b1 ) + std::fabs( c.b2 ), eps = std::max<ld>( std::numeric_limits<T>::epsilon(), 1e-18L ), sum = 0, h1 = 0, h2 = 0; if ( maxpole( c ) > .999L ) return;
    for ( long i = 0; i < 40000; ++i ) { ld h = ( i == 0 ? 1 : 0 ) - c.a1 * h1 - c.a2 * h2; sum += std::fabs( h ); h2 = h1; h1 = h; if ( std::fabs( h1 ) + std::fabs( h2 ) < 1e-12L && i > 2 ) break; }
    std::vector<ld> y( x.size() ); ld x1 = 0, x2 = 0, y1 = 0, y2 = 0, w1 = 0, w2 = 0, xm = 0, ym = 0, wm = 0; for ( size_t i = 0; i < x.size(); ++i ) { ld v = x[ i ], o = c.b0 * v + c.b1 * x1 + c.b2 * x2 - c.a1 * y1 - c.a2 * y2, w = v - c.a1 * w1 - c.a2 * w2; y[ i ] = o; x2 = x1; x1 = v; y2 = y1; y1 = o; w2 = w1; w1 = w; xm = std::max( xm, std::fabs( v ) ); ym = std::max( ym, std::fabs( o ) ); wm = std::max( wm, std::fabs( w ) ); }
    ld tol = 8 * eps * ( B * sum * ( xm + A * wm ) + B * wm + sum * ( B * xm + ( 1 + A ) * ym ) ) + 1e-30L; if ( tol > .01L * ym ) { vm::counter( "steady_skipped" ); return; }
    for ( size_t i = 0; i < x.size(); ++i ) { ld o = ld( step( T( x[ i ] ) ) ); if ( !vm::close( o, y[ i ], tol ) ) { vm::fail( key, "%s, long monotonous input: output %zu is %.12Lg, the difference equation gives %.12Lg (tolerance %.3Lg)", name.c_str(), i, o, y[ i ], tol ); return; } }
    vm::event( x.size() ); vm::counter( "long_run_samples", x.size() ); vm::distinct( vm::hashd( hashco( c ), double( y.back() ) ) );
}
// a sample rate: often a usual one; one and two stand for normalised frequencies
inline double rate( vm::Rng & g, double lo = 1e-2 )
{
    if ( g.p( .3 ) ) { static const double n[] = { 1, 1, 1, 2, 2, M_PI, 2 * M_PI, 10, 50, 60, 100, 128, 200, 250, 256, 500, 1000, 1000, 1024, 4000, 8000, 8000, 11025, 16000, 22050, 32000, 44100, 44100, 48000, 48000, 88200, 96000, 192000 }; double r = n[ g.i( 0, int( sizeof n / sizeof *n ) - 1 ) ]; if ( r >= lo ) return r; }
    return g.p( .5 ) ? g.logu( lo, 1e6 ) : double( g.i( 3, 192000 ) );
}
inline int irate( vm::Rng & g, int lo, int hi ) { static const int n[] = { 4, 6, 8, 10, 12, 50, 60, 100, 128, 200, 250, 256, 500, 1000, 1024, 4000, 8000, 11025, 16000, 22050, 32000, 44100, 48000, 88200, 96000 }; int r = n[ g.i( 0, int( sizeof n / sizeof *n ) - 1 ) ]; return g.p( .25 ) && r >= lo && r <= hi ? r : int( g.i( lo, hi ) ); }
// a frequency below half the rate: sometimes a simple part of it
inline int ifreq( vm::Rng & g, int fs ) { if ( g.p( .25 ) ) { int d = int( g.i( 3, 12 ) ); if ( fs / d > 0 && 2 * ( fs / d ) < fs ) return fs / d; } return int( g.i( 1, ( fs - 1 ) / 2 ) ); }
inline double freqRatio( vm::Rng & g )
{
    switch ( g.i( 0, 5 ) ) { case 0: return g.logu( 1e-5, .4 ); case 1: return .5 - g.logu( 1e-5, .4 ); case 2: { static const double n[] = { .25, .25, .25, 1 / 3., 1 / 6., .125, .375, .1, .2, .4, .05, .45, .01, .49, 1 / 12., 5 / 12., 1 / ( 2 * M_PI ), 1 / M_PI }; return n[ g.i( 0, 17 ) ]; } default: return g.uni( .005, .495 ); }
}
#endif
