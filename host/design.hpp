// Analog prototypes and error bounds for the bilinear designs (C18-C20).
#ifndef DESIGN_ORACLE_HPP
#define DESIGN_ORACLE_HPP
#include "dsp.hpp"
#include "dsp/biquad-design.hpp"
#include <limits>
#include <type_traits>
using dsp::FilterResponse;
struct Proto { ld n2, n1, n0, d2, d1, d0; };
inline Proto proto( FilterResponse r, ld dB, ld Q )
{
    ld V = std::pow( 10.0L, std::fabs( dB ) / 20 ), s2 = std::sqrt( 2.0L ), sv = std::sqrt( 2 * V ); Proto p{};
    switch ( r )
    {
        case FilterResponse::low_pass:  p = { 0, 0, 1, 1, 1 / Q, 1 }; break;
        case FilterResponse::high_pass: p = { 1, 0, 0, 1, 1 / Q, 1 }; break;
        case FilterResponse::band_pass: p = { 0, 1 / Q, 0, 1, 1 / Q, 1 }; break;
        case FilterResponse::band_stop: p = { 1, 0, 1, 1, 1 / Q, 1 }; break;
        case FilterResponse::low_shelf: p = { 1, sv, V, 1, s2, 1 }; break;
        case FilterResponse::high_shelf: p = { V, sv, 1, 1, s2, 1 }; break;
        case FilterResponse::peak_band_eq: p = { 1, V / Q, 1, 1, 1 / Q, 1 }; break;
        default: break;
    }
    if ( dB < 0 && ( r == FilterResponse::low_shelf || r == FilterResponse::high_shelf || r == FilterResponse::peak_band_eq ) ) p = { p.d2, p.d1, p.d0, p.n2, p.n1, p.n0 };
    return p;
}
inline lc Hproto( Proto const & p, ld K, ld fn )
{
    // multiplied out so that DC and Nyquist are exact: u = sin, v = cos of pi fn
    lc u = lc( 0, std::sin( PIl * fn ) ), v = fn == .5L ? 0 : std::cos( PIl * fn ); v *= K;
    return ( p.n2 * u * u + p.n1 * u * v + p.n0 * v * v ) / ( p.d2 * u * u + p.d1 * u * v + p.d0 * v * v );
}
inline Co coproto( Proto const & p, ld K )
{
    ld d = p.d2 + p.d1 * K + p.d0 * K * K;
    return { ( p.n2 + p.n1 * K + p.n0 * K * K ) / d, 2 * ( p.n0 * K * K - p.n2 ) / d, ( p.n2 - p.n1 * K + p.n0 * K * K ) / d, 2 * ( p.d0 * K * K - p.d2 ) / d, ( p.d2 - p.d1 * K + p.d0 * K * K ) / d };
}
// error a design computed with precision eps may have at fn
inline ld Htol( Proto const & p, ld fr, ld fn, ld eps )
{
    ld x = PIl * fr, K = std::tan( x ), k = 2 + 2 * x / std::sin( 2 * x ); Co c = coproto( p, K );
    ld dlnK = std::abs( Hproto( p, K * ( 1 + 1e-6L ), fn ) - Hproto( p, K * ( 1 - 1e-6L ), fn ) ) / 2e-6L;
    if ( 16 * eps * ( 1 + std::fabs( c.a1 ) + std::fabs( c.a2 ) ) > .1L * std::abs( den_( c, fn ) ) ) return HUGE_VALL;   // rounding can move a pole onto this frequency
    return 16 * eps * ( Hcond( c, fn ) + k * dlnK );
}
// smallest distance of the poles from the unit circle that rounding cannot hide
inline ld poleMargin( Co const & c, ld eps )
{
    ld M = std::max( std::fabs( c.a1 ), std::sqrt( std::fabs( c.a2 ) ) ) + 1, disc = std::sqrt( std::fabs( c.a1 * c.a1 - 4 * c.a2 ) );
    return 64 * eps * M * M / std::max( disc, std::sqrt( eps ) * M );
}
template< class Q > Co coOf( Q const & q ) { auto a = q.coeff_a(); auto b = q.coeff_b(); return { ld( b.b0 ), ld( b.b1 ), ld( b.b2 ), ld( a.a1 ), ld( a.a2 ) }; }
inline const char * rname( FilterResponse r )
{
    static const char * n[] = { "all_pass", "low_pass", "high_pass", "band_pass", "band_stop", "low_shelf", "high_shelf", "peak_band_eq" };
    return n[ int( r ) ];
}
// a quality factor: often one of the usual ones, or one that coincides with another quantity of the design
inline double quality( vm::Rng & g, double lo, double hi, double fr, double d = 0 )
{
    if ( g.p( .25 ) ) { static const double n[] = { .1, .2, .25, .3, 1 / 3., .4, .5, .5, .5, .5412, .541196100146197, .57735026918962576451, .6, .61803398874989, .65, 2 / 3., .7, .707, .7071, .75, .8, .9, 1, 1, 1, 1.2, 1.3066, 1.30656296487638, M_SQRT2, 1.5, 1.7320508075688772, 2, 2, 2.5, 3, 4, 5, 6, 7, 8, 9, 10, 20, 50, 100, 1000 }; double q = n[ g.i( 0, int( sizeof n / sizeof *n ) - 1 ) ]; if ( q >= lo && q <= hi ) return q; }
    if ( g.p( .12 ) ) { double K = std::tan( M_PI * fr ), V = dsp::dbV_factor( std::fabs( d ) ); const double n[] = { K, 1 / K, 2 * K, K / 2, V, V, 1 / V, V * K, V / K, K / V, std::sqrt( V ), std::sqrt( V / 2 ), 1 + K * K, K / ( 1 + K * K ), fr, 2 * fr }; double q = n[ g.i( 0, int( sizeof n / sizeof *n ) - 1 ) ]; if ( q >= lo && q <= hi ) return q; }
    if ( g.p( .3 ) ) return M_SQRT1_2;
    return g.logu( lo, hi );
}
#endif
