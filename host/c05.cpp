// C05: a fixed-point estimator follows the double one. Two oracles: every step against the exact step
// from the filter's own previous state with a running error bound in units of the resolution, and the
// whole history against the library's double estimator with a tolerance measured by perturbing
// reference recursions by that bound at every step.
#include "kal.hpp"
#include <algorithm>

inline ld inorm( LM const & m ) { ld n = 0; for ( int i = 0; i < m.r; ++i ) { ld s = 0; for ( int j = 0; j < m.c; ++j ) s += std::fabs( m( i, j ) ); n = std::max( n, s ); } return n; }

struct FxStep { LM x, K, P; ld ex, eK, eP, biggest; bool ok; };

inline FxStep fxstep( LM const & A, LM const & B, LM const & H, LM const & Q, LM const & R, LM const & P, LM const & x, LM const & u, LM const & z, ld r )
{
    FxStep s; s.ok = false;
    const LM Ht = H.t();
    ld nA = inorm( A ), nAt = inorm( A.t() ), nH = inorm( H ), nHt = inorm( Ht );
    LM xm = add( mul( A, x ), mul( B, u ) ), Pm = add( mul( mul( A, P ), A.t() ), Q ), T = mul( Pm, Ht ), S = add( mul( H, T ), R ), Si;
    s.biggest = std::max( { nA * x.norm() + inorm( B ) * u.norm(), nA * P.norm() * nAt + Q.norm(), nH * nHt * Pm.norm() * 2 + R.norm(), nH * xm.norm() + z.norm() } );
    ld ePm = 4 * r * ( 1 + nAt ), eT = nHt * ePm + 4 * r, eS = nH * eT + nH * nHt * ePm + 8 * r, eSi;
    if ( S.r == 1 )
    {
        if ( !( S( 0, 0 ) > 0 ) || eS > .1L * S( 0, 0 ) ) return s;
        Si = LM( 1, 1 ); Si( 0, 0 ) = 1 / S( 0, 0 );
        eSi = 1.2L * eS * Si( 0, 0 ) * Si( 0, 0 ) + r;
        s.biggest = std::max( s.biggest, Si( 0, 0 ) );
    }
    else
    {
        ld det = S( 0, 0 ) * S( 1, 1 ) - S( 0, 1 ) * S( 1, 0 ), nS = inorm( S ), ed = 4 * nS * eS + 4 * r;
        if ( !( det > 0 ) || ed > .1L * det || !lsolve( S, LM::I( 2 ), Si ) ) return s;
        ld ei = 1.3L * ed / ( det * det ) + r;
        eSi = 1.2L * ( nS * ei + eS / det ) + 4 * r;
        s.biggest = std::max( { s.biggest, nS * nS, 1 / det, inorm( Si ) } );
    }
    s.K = mul( T, Si );
    s.eK = inorm( T ) * eSi + inorm( Si ) * eT + 2 * eT * eSi + 8 * r;
    LM y = add( z, mul( H, xm ), -1 ), L = add( LM::I( 2 ), mul( s.K, H ), -1 );
    ld exm = 8 * r, ey = nH * exm + 4 * r;
    s.x = add( xm, mul( s.K, y ) ); s.P = mul( L, Pm );
    s.ex = exm + inorm( s.K ) * ey + 2 * s.eK * ( y.norm() + ey ) + 8 * r;
    s.eP = ( 1 + inorm( s.K ) * nH ) * ePm + 2 * nH * s.eK * ( Pm.norm() + ePm ) + 4 * r * ( 1 + 2 * Pm.norm() );
    s.biggest = std::max( { s.biggest, inorm( s.K ) * y.norm() + xm.norm(), inorm( s.K ) * nH * 2 + 1, ( 1 + inorm( s.K ) * nH ) * Pm.norm() * 2, inorm( T ) * inorm( Si ), s.x.norm(), s.P.norm() } );
    s.ok = true;
    return s;
}

template< int I, int F, int M, int U, class Rep = int32_t >
void track( vm::Rng & g )
{
    using X = num::fixed_point<Rep, I, F>;
    using KF = num::kalman<X, 2, M, U>; using KD = num::kalman<double, 2, M, U>;
    const ld r = std::ldexp( 1.0L, -F ), lim = .9L * std::ldexp( 1.0L, I );
    // well-scaled models: moderate dynamics, noise of order one
    Model<X, M, U> mx; Model<double, M, U> md;
    double s = std::min( 4.0, std::ldexp( 1.0, I ) / 64 );
    LM A( 2, 2 ); int ka = int( g.i( 0, 4 ) );
    if ( ka == 0 ) { A( 0, 0 ) = A( 1, 1 ) = 1; A( 0, 1 ) = g.pick( { .01, .1, .5, 1.0 } ); }
    else if ( ka == 1 ) { double w = g.uni( 0, 2 ), rr = g.uni( .6, 1 ); A( 0, 0 ) = A( 1, 1 ) = rr * cos( w ); A( 0, 1 ) = rr * sin( w ); A( 1, 0 ) = -rr * sin( w ); }
    else if ( ka == 2 ) { A( 0, 0 ) = g.uni( -1, 1 ); A( 1, 1 ) = g.uni( -1, 1 ); A( 0, 1 ) = g.uni( -.8, .8 ); }
    else if ( ka == 3 ) A = LM::I( 2 );
    else A = randm( g, 2, 2, .7 );
    LM H( M, 2 ); for ( int i = 0; i < M; ++i ) H( i, i ) = 1; if ( g.p( .4 ) ) H = randm( g, M, 2, 1.3 );
    fromL( A, mx.A ); fromL( randm( g, 2, U, 1 ), mx.B ); fromL( H, mx.H );
    fromL( randpsd( g, 2, g.uni( .05, s ), int( g.i( 2, 3 ) ) ), mx.Q ); fromL( randpsd( g, M, g.uni( .3, s ), int( g.i( 2, 3 ) ) ), mx.R ); fromL( randpsd( g, 2, g.uni( .3, s ), int( g.i( 2, 3 ) ) ), mx.P );
    mx.Q( 1, 0 ) = mx.Q( 0, 1 ); mx.P( 1, 0 ) = mx.P( 0, 1 ); if constexpr( M == 2 ) mx.R( 1, 0 ) = mx.R( 0, 1 );
    mx.x( 0 ) = X( g.uni( -s, s ) ); mx.x( 1 ) = X( g.uni( -s, s ) ); mx.dt = X( 0.125 );
    const LM lA = mx.lA(), lB = mx.lB(), lH = mx.lH(), lQ = mx.lQ(), lR = mx.lR();
    fromL( lA, md.A ); fromL( lB, md.B ); fromL( lH, md.H ); fromL( lQ, md.Q ); fromL( lR, md.R ); fromL( mx.lP(), md.P ); fromL( toL( mx.x ), md.x ); md.dt = .125;
    double zs = g.p( .3 ) ? std::ldexp( g.uni( .05, .9 ), I ) : s;   // measurements up to the range; steps that could leave it are not made
    auto f = mx.make(); auto d = md.make();
    struct Pert { LM x, P; int mode; }; std::vector<Pert> reps;
    for ( int k = 0; k < 10; ++k ) reps.push_back( { toL( mx.x ), mx.lP(), k } );
    vm::Rng pr( g.next() );
    ld devx = 0, devP = 0, gap = 0; bool history = true; // false: the whole history is too sensitive, only single steps are compared
    int n = int( g.p( .05 ) ? g.i( 100, 800 ) : g.i( 1, 60 ) ), k = 0;
    for ( ; k < n; ++k )
    {
        auto u = randu<KF>( g, s / 2 ); auto z = randz<KF>( g, zs );
        typename KD::u_t ud( 0.0 ); typename KD::z_t zd( 0.0 ); fromL( toL( u ), ud ); fromL( toL( z ), zd );
        LM x0 = k ? toL( f.system_state() ) : toL( mx.x ), P0 = k ? toL( f.estimation_error_covariance() ) : mx.lP();
        FxStep e = fxstep( lA, lB, lH, lQ, lR, P0, x0, toL( u ), toL( z ), r );
        for ( int shrink = 0; shrink < 12 && e.ok && e.biggest > lim; ++shrink ) { for ( int i = 0; i < M; ++i ) z( i ) = X( todbl( z( i ) ) * .8 ); fromL( toL( z ), zd ); e = fxstep( lA, lB, lH, lQ, lR, P0, x0, toL( u ), toL( z ), r ); }
        if ( !e.ok || e.biggest > lim ) { vm::counter( "left_range_or_ill_scaled" ); break; }
        f.update( u, z ); d.update( ud, zd ); vm::event( 2 );
        LM x = toL( f.system_state() ), K = toL( f.kalman_gain() ), P = toL( f.estimation_error_covariance() );
        auto near = [&]( char const * what, LM const & got, LM const & want, ld tol )
        {
            for ( size_t i = 0; i < got.v.size(); ++i )
            {
                gap = std::max( gap, std::fabs( got.v[i] - want.v[i] ) / tol );
                if ( !vm::close( got.v[i], want.v[i], tol ) )
                { vm::fail( what, "fixed_point<int%d,%d,%d> M=%d U=%d step %d: %s, expected %s within %.4Lg (resolution %.4Lg); %s", int( sizeof( Rep ) * 8 ), I, F, M, U, k, showL( got ).c_str(), showL( want ).c_str(), tol, r, showmodel( mx ).c_str() ); return; }
            }
        };
        near( "step-state", x, e.x, 1.5L * e.ex ); near( "step-gain", K, e.K, 1.5L * e.eK ); near( "step-covariance", P, e.P, 1.5L * e.eP );
        bool whole = true;
        if ( history ) for ( auto & q : reps )
        {
            FxStep w = fxstep( lA, lB, lH, lQ, lR, q.P, q.x, toL( u ), toL( z ), r );
            if ( !w.ok ) { whole = false; break; }
            q.x = w.x; q.P = w.P;
            auto sg = [&]( int bit ) { return q.mode < 4 ? ( ( q.mode >> bit ) & 1 ? 1.0L : -1.0L ) : ( ld )pr.sgn(); };
            ld sx = sg( 0 ), sP = sg( 1 );
            q.x( 0, 0 ) += e.ex * sx; q.x( 1, 0 ) += e.ex * ( q.mode < 4 ? sx : sg( 0 ) );
            q.P( 0, 0 ) += e.eP * sP; q.P( 1, 1 ) += e.eP * ( q.mode < 4 ? sP : sg( 1 ) ); ld o = e.eP * .7L * sg( 1 ); q.P( 0, 1 ) += o; q.P( 1, 0 ) += o;
        }
        if ( history && !whole ) { vm::counter( "perturbed_reference_ill_conditioned" ); history = false; }
        LM dx = toL( d.system_state() ), dP = toL( d.estimation_error_covariance() );
        if ( history ) for ( auto & q : reps ) { devx = std::max( devx, add( q.x, dx, -1 ).norm() ); devP = std::max( devP, add( q.P, dP, -1 ).norm() ); }
        if ( history && ( devx > .2L * s || devP > .2L * s ) ) { vm::counter( "too_sensitive_for_whole_history" ); history = false; }
        if ( history ) vm::counter( "whole_history_steps_checked" );
        if ( history ) near( "history-state", x, dx, 4 * devx + 3 * e.ex ); if ( history ) near( "history-covariance", P, dP, 4 * devP + 3 * e.eP );
        vm::counter( "steps_checked" );
        ld want = .125L * ( k + 1 );
        if ( want < lim && std::fabs( todbl( f.time() ) - want ) > r * ( k + 1 ) ) vm::fail( "time", "time %.9g after %d steps of 0.125", todbl( f.time() ), k + 1 );
    }
    { static ld mg = 0; if ( getenv( "WORST" ) && gap > mg ) { mg = gap; fprintf( stderr, "gap %.3Lg\n", gap ); } }
    if ( gap > .5 ) vm::counter( "cases_using_over_half_the_tolerance" );
    if ( k > 0 ) vm::distinct( hashmodel( mx ) );
    vm::sample( "fixed_point<int%d,%d,%d> n=%d used %.3Lg of tolerance, %s", int( sizeof( Rep ) * 8 ), I, F, k, gap, showmodel( mx ).c_str() );
}
GROUP( f15_11, 500, 16000 ) { track<16, 15, 1, 1>( g ); }
GROUP( f15_21, 500, 16000 ) { track<16, 15, 2, 1>( g ); }
GROUP( f15_12, 500, 16000 ) { track<16, 15, 1, 2>( g ); }
GROUP( f15_22, 500, 16000 ) { track<16, 15, 2, 2>( g ); }
GROUP( f20_11, 500, 16000 ) { track<11, 20, 1, 1>( g ); }
GROUP( f20_22, 500, 16000 ) { track<11, 20, 2, 2>( g ); }
GROUP( f23_11, 500, 16000 ) { track<8, 23, 1, 1>( g ); }
GROUP( f11_11, 500, 16000 ) { track<20, 11, 1, 1>( g ); }
GROUP( f23_21, 500, 16000 ) { track<8, 23, 2, 1>( g ); }
GROUP( f15_13, 400, 12000 ) { track<16, 15, 1, 3>( g ); track<11, 20, 2, 4>( g ); }
GROUP( h10_11, 500, 16000 ) { track<5, 10, 1, 1, int16_t>( g ); }
GROUP( h9_12, 500, 16000 ) { track<6, 9, 1, 2, int16_t>( g ); }
GROUP( h8_11, 500, 16000 ) { track<7, 8, 1, 1, int16_t>( g ); }
VMON_MAIN
