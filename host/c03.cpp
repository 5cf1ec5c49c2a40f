// C03: covariance invariants after every update, bounded and convergent on long runs.
#include "kal.hpp"
#include <limits>

template< class T, int M, int U >
void invariants( vm::Rng & g )
{
    using F = num::kalman<T, 2, M, U>;
    const ld eps = std::numeric_limits<T>::epsilon();
    auto m = randmodel<T, M, U>( g, g.p( .5 ) );
    auto f = m.make();
    const LM A = m.lA(), H = m.lH(), Q = m.lQ(), R = m.lR();
    LM Pprev = m.lP();
    int n = int( g.i( 1, 60 ) );
    for ( int k = 0; k < n; ++k )
    {
        // tolerance: rounding of this one step from the filter's own previous covariance, plus what
        // rounding already took that covariance below zero (slack), amplified by this step.
        Step e = refstep( A, m.lB(), H, Q, R, Pprev, LM( 2, 1 ), LM( U, 1 ), LM( M, 1 ), eps );
        if ( !e.ok ) { vm::counter( "ill_conditioned_skipped" ); break; }
        LM Pm = e.Pm, S = add( mul( mul( H, Pm ), H.t() ), R );
        ld smin = M == 1 ? S( 0, 0 ) : mineig2( S );
        ld KH = 1 + mul( e.K.abs(), H.abs() ).norm() * 2;
        ld slack = std::max( ld( 0 ), -mineig2( Pm ) ) * 4 * KH * KH;
        ld tol = 4 * e.tP + slack + 1e-32L;
        if ( !( Pm.norm() < 1e8L ) || e.Sinv > 1e10L || !( smin > 1e-5L * S.norm() ) || tol > .02L * Pm.norm() ) { vm::counter( "ill_conditioned_skipped" ); break; }
        f.update( randu<F>( g, 3 ), randz<F>( g, 30 ) ); vm::event();
        LM P = toL( f.estimation_error_covariance() );
        if ( !vm::close( P( 0, 1 ), P( 1, 0 ), tol ) )
            vm::fail( "not-symmetric", "step %d P=%s; %s", k, showL( P ).c_str(), showmodel( m ).c_str() );
        if ( !( mineig2( P ) >= -tol ) )
            vm::fail( "not-positive-semidefinite", "step %d P=%s smallest eigenvalue %.6Lg; %s", k, showL( P ).c_str(), mineig2( P ), showmodel( m ).c_str() );
        if ( !( mineig2( add( Pm, P, -1 ) ) >= -tol ) )
            vm::fail( "measurement-increased-covariance", "step %d predicted %s corrected %s; %s", k, showL( Pm ).c_str(), showL( P ).c_str(), showmodel( m ).c_str() );
        // directly measured combinations: H P H' <= R
        LM hph = mul( mul( H, P ), H.t() ), d = add( R, hph, -1 );
        ld low = M == 1 ? d( 0, 0 ) : mineig2( d );
        if ( !( low >= -( tol * ( 1 + H.norm() * H.norm() * 4 ) + 1e-12L * R.norm() ) ) )
            vm::fail( "less-certain-than-measurement", "step %d HPH'=%s R=%s; %s", k, showL( hph ).c_str(), showL( R ).c_str(), showmodel( m ).c_str() );
        vm::counter( "covariances_checked" );
        Pprev = P;
    }
    vm::distinct( hashmodel( m ) );
    vm::sample( "n=%d %s", n, showmodel( m ).c_str() );
}

template< class T, int M >
void longrun( vm::Rng & g )
{
    using F = num::kalman<T, 2, M, 1>;
    Model<T, M, 1> m;
    double dt = g.pick( { .01, .1, .5, 1.0 } );
    int ka = int( g.i( 0, 3 ) );
    if ( ka == 0 ) { m.A = { T( 1 ), T( dt ), T( 0 ), T( 1 ) }; }
    else if ( ka == 1 ) { double w = g.uni( .1, 2 ); m.A = { T( cos( w ) ), T( sin( w ) ), T( -sin( w ) ), T( cos( w ) ) }; }
    else if ( ka == 2 ) { m.A = { T( g.uni( .3, .99 ) ), T( g.uni( .2, 1 ) ), T( 0 ), T( g.uni( .3, .99 ) ) }; }
    else { m.A = { T( 1 ), T( g.uni( .2, 1.5 ) ), T( 0 ), T( g.uni( .9, 1.02 ) ) }; }
    m.B = { T( dt * dt / 2 ), T( dt ) };
    LM H( M, 2 ); H( 0, 0 ) = 1;
    if ( M == 2 ) { H( 1, 1 ) = 1; if ( g.p( .6 ) ) for ( auto & x : H.v ) x += g.uni( -.7, .7 ); }
    fromL( H, m.H );
    LM Q = randpsd( g, 2, g.logu( .02, 5 ), int( g.i( 2, 3 ) ) ), R = randpsd( g, M, g.logu( .05, 50 ), int( g.i( 2, 3 ) ) ), P = randpsd( g, 2, g.logu( .1, 50 ), 3 );
    if ( M == 2 && std::fabs( H( 0, 0 ) * H( 1, 1 ) - H( 0, 1 ) * H( 1, 0 ) ) < .2 ) return;
    fromL( Q, m.Q ); fromL( R, m.R ); fromL( P, m.P ); m.Q( 0, 1 ) = m.Q( 1, 0 ); m.P( 0, 1 ) = m.P( 1, 0 );
    if constexpr( M == 2 ) m.R( 0, 1 ) = m.R( 1, 0 );
    // reference steady state by iterating the Riccati equation in long double (symmetrised)
    LM Pr = m.lP(); const LM A = m.lA(), Hh = m.lH(), lQ = m.lQ(), lR = m.lR();
    ld sens = 1; bool conv = false; ld delta = 0;
    for ( int k = 0; k < 20000; ++k )
    {
        LM Pm = add( mul( mul( A, Pr ), A.t() ), lQ ), S = add( mul( mul( Hh, Pm ), Hh.t() ), lR ), Si = linv( S ); if ( Si.v.empty() ) break;
        LM K = mul( mul( Pm, Hh.t() ), Si ), N = add( Pm, mul( mul( K, Hh ), Pm ), -1 );
        N( 0, 1 ) = N( 1, 0 ) = ( N( 0, 1 ) + N( 1, 0 ) ) / 2;
        delta = add( N, Pr, -1 ).norm(); Pr = N;
        sens = 1 + Si.norm() * S.norm() + K.norm() * Hh.norm();
        if ( delta < 1e-15L * Pr.norm() && k > 50 ) { conv = true; break; }
    }
    if ( !conv ) { vm::counter( "no_steady_state" ); return; }
    auto f = m.make();
    auto m2 = m; LM P2 = randpsd( g, 2, g.logu( 10, 1000 ), 3 ); fromL( P2, m2.P ); m2.P( 0, 1 ) = m2.P( 1, 0 );
    auto f2 = m2.make();
    int n = vm::st().thorough ? 60000 : 6000; if ( g.p( .03 ) ) n *= 8;
    typename F::u_t u( T( .1 ) ); typename F::z_t z( T( 1 ) );
    ld bound = 10 * ( m.lP().norm() + Pr.norm() + lQ.norm() ) * ( 1 + A.norm() * 40 );
    for ( int k = 0; k < n; ++k )
    {
        f.update( u, z ); f2.update( u, z ); vm::event( 2 );
        auto P = f.estimation_error_covariance();
        if ( !( std::fabs( ld( P( 0, 1 ) ) - P( 1, 0 ) ) <= 1e-3L * ( std::fabs( P( 0, 0 ) ) + std::fabs( P( 1, 1 ) ) ) ) ) { vm::fail( "long-run-not-symmetric", "step %d P=%s; %s", k, show( P ).c_str(), showmodel( m ).c_str() ); return; }
        if ( !( std::fabs( P( 0, 0 ) ) <= bound && std::fabs( P( 1, 1 ) ) <= bound && P( 0, 0 ) >= -1e-3L * bound ) ) { vm::fail( "long-run-unbounded", "step %d P=%s bound %.6Lg; %s", k, show( P ).c_str(), bound, showmodel( m ).c_str() ); return; }
    }
    LM Pa = toL( f.estimation_error_covariance() ), Pb = toL( f2.estimation_error_covariance() );
    ld tol = ( sizeof( T ) == 4 ? 3e-3L : 1e-8L ) * Pr.norm() * sens;
    if ( tol < .3L * Pr.norm() ) for ( int i = 0; i < 4; ++i )
    {
        if ( !vm::close( Pa.v[i], Pr.v[i], tol ) ) vm::fail( "does-not-converge", "after %d updates P=%s steady state %s; %s", n, showL( Pa ).c_str(), showL( Pr ).c_str(), showmodel( m ).c_str() );
        if ( !vm::close( Pa.v[i], Pb.v[i], tol ) ) vm::fail( "limit-depends-on-prior", "after %d updates P=%s and %s; %s", n, showL( Pa ).c_str(), showL( Pb ).c_str(), showmodel( m ).c_str() );
        vm::counter( "steady_states_compared" );
    }
    vm::distinct( hashmodel( m ) + 3 );
    vm::sample( "n=%d steady=%s %s", n, showL( Pr ).c_str(), showmodel( m ).c_str() );
}
GROUP( inv_d11, 1500, 50000 ) { invariants<double, 1, 1>( g ); }
GROUP( inv_d21, 1500, 50000 ) { invariants<double, 2, 1>( g ); }
GROUP( inv_d12, 800, 30000 ) { invariants<double, 1, 2>( g ); }
GROUP( inv_d22, 1500, 50000 ) { invariants<double, 2, 2>( g ); }
GROUP( inv_f11, 1500, 50000 ) { invariants<float, 1, 1>( g ); }
GROUP( inv_f21, 1500, 50000 ) { invariants<float, 2, 1>( g ); }
GROUP( long_d1, 60, 600 ) { longrun<double, 1>( g ); }
GROUP( long_d2, 60, 600 ) { longrun<double, 2>( g ); }
GROUP( long_f1, 60, 600 ) { longrun<float, 1>( g ); }
GROUP( long_f2, 60, 600 ) { longrun<float, 2>( g ); }
GROUP( inv_d13, 800, 30000 ) { invariants<double, 1, 3>( g ); }
VMON_MAIN
