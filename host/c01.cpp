// C01: every update is the textbook predict-correct step (one-step oracle in long double with an
// error bound, plus whole-history oracle for well conditioned models).
#include "kal.hpp"
#include <limits>

template< class T, int M, int U >
void history( vm::Rng & g, bool benign, int steps = 0 )
{
    using F = num::kalman<T, 2, M, U>;
    const ld eps = std::numeric_limits<T>::epsilon() * ( sizeof( T ) > 8 ? 4 : 1 );   // the oracle rounds as long double does
    auto m = randmodel<T, M, U>( g, benign );
    auto f = m.make();
    const LM A = m.lA(), B = m.lB(), H = m.lH(), Q = m.lQ(), R = m.lR();
    LM gx = toL( m.x ), gP = m.lP(); bool whole = benign; ld worst = 1;
    int n = steps ? steps : int( g.i( 1, benign ? ( g.p( .03 ) ? 400 : 40 ) : 12 ) );
    double zs = g.pick( { 1.0, 30.0, 1000.0 } );
    for ( int k = 0; k < n; ++k )
    {
        auto u = randu<F>( g, 5 ); auto z = randz<F>( g, zs );
        LM x0 = k ? toL( f.system_state() ) : toL( m.x ), P0 = k ? toL( f.estimation_error_covariance() ) : m.lP();
        if ( !( x0.norm() < 1e8 ) || !( P0.norm() < 1e8 ) ) break;
        Step s = refstep( A, B, H, Q, R, P0, x0, toL( u ), toL( z ), eps );
        if ( !s.ok || s.kappa * eps > 1e-3L || s.Sinv > 1e10L || mineig2( P0 ) < -1e-3L * ( P0.norm() ) ) { vm::counter( "ill_conditioned_skipped" ); break; }
        f.update( u, z );
        vm::event();
        LM x = toL( f.system_state() ), K = toL( f.kalman_gain() ), P = toL( f.estimation_error_covariance() );
        auto chk = [&]( const char * what, LM const & got, LM const & want, ld tol )
        {
            for ( size_t i = 0; i < got.v.size(); ++i ) if ( !vm::close( got.v[i], want.v[i], tol + ( sizeof( T ) == 4 ? 1e-32L : 1e-250L ) ) )
            {
                vm::fail( vm::fmt( "one-step-%s", what ), "T=%s M=%d U=%d step %d: %s=%s expected %s tol %.3Lg; u=%s z=%s before x=%s P=%s; %s", sizeof( T ) == 4 ? "float" : sizeof( T ) == 8 ? "double" : "long double", M, U, k, what, showL( got ).c_str(), showL( want ).c_str(), tol, show( u ).c_str(), show( z ).c_str(), showL( x0 ).c_str(), showL( P0 ).c_str(), showmodel( m ).c_str() );
                return;
            }
        };
        chk( "state", x, s.x, s.tx ); chk( "gain", K, s.K, s.tK ); chk( "covariance", P, s.P, s.tP );
        vm::counter( M == 1 ? "updates_M1" : "updates_M2" );
        if ( K.norm() == 0 ) vm::counter( "zero_gain_updates" );
        if ( whole )
        {
            Step w = refstep( A, B, H, Q, R, gP, gx, toL( u ), toL( z ), eps );
            gx = w.x; gP = w.P; worst = std::max( worst, w.kappa );
            if ( gP.norm() > 1e4L || gx.norm() > 1e5L ) whole = false;
            ld amp = 2000 * eps * worst * ( k + 1 );
            if ( whole && amp < .02L )
            {
                ld ts = amp * ( 30 + gx.norm() + zs + 5 ) , tp = amp * ( 1 + m.lP().norm() + Q.norm() + R.norm() + gP.norm() );
                if ( !vm::close( x( 0, 0 ), gx( 0, 0 ), ts * 10 ) || !vm::close( x( 1, 0 ), gx( 1, 0 ), ts * 10 ) )
                    vm::fail( "history-state", "step %d: state %s, whole-history reference %s; %s", k, showL( x ).c_str(), showL( gx ).c_str(), showmodel( m ).c_str() );
                for ( int i = 0; i < 4; ++i ) if ( !vm::close( P.v[i], gP.v[i], tp * 10 ) )
                    vm::fail( "history-covariance", "step %d: P %s, whole-history reference %s; %s", k, showL( P ).c_str(), showL( gP ).c_str(), showmodel( m ).c_str() );
                vm::counter( "whole_history_steps" );
            }
        }
    }
    vm::distinct( hashmodel( m ) );
    vm::sample( "n=%d %s", n, showmodel( m ).c_str() );
}
GROUP( d11, 1500, 60000 ) { history<double, 1, 1>( g, g.p( .4 ) ); }
GROUP( d21, 1500, 60000 ) { history<double, 2, 1>( g, g.p( .4 ) ); }
GROUP( d12, 1500, 60000 ) { history<double, 1, 2>( g, g.p( .4 ) ); }
GROUP( d22, 1500, 60000 ) { history<double, 2, 2>( g, g.p( .4 ) ); }
GROUP( f11, 1500, 60000 ) { history<float, 1, 1>( g, g.p( .4 ) ); }
GROUP( f21, 1500, 60000 ) { history<float, 2, 1>( g, g.p( .4 ) ); }
GROUP( f12, 1500, 60000 ) { history<float, 1, 2>( g, g.p( .4 ) ); }
GROUP( f22, 1500, 60000 ) { history<float, 2, 2>( g, g.p( .4 ) ); }

// The recursion is homogeneous: covariances scaled by 2^2k and states and measurements by 2^k give the
// same gains and the scaled estimates, whatever the unit of measurement is.
template< class T, int M, int U >
void scaled( vm::Rng & g )
{
    using F = num::kalman<T, 2, M, U>;
    auto m = randmodel<T, M, U>( g, true ); auto s = m;
    const int most = sizeof( T ) == 4 ? 9 : 60; const int k = int( g.i( -most, most ) ); const T f1 = T( std::ldexp( 1.0, k ) ), f2 = T( std::ldexp( 1.0, 2 * k ) );
    for ( auto & v : s.Q ) v *= f2;
    for ( auto & v : s.R ) v *= f2;
    for ( auto & v : s.P ) v *= f2;
    for ( auto & v : s.x ) v *= f1;
    for ( auto & v : s.B ) v *= f1;
    auto a = m.make(), b = s.make(); const ld eps = std::numeric_limits<T>::epsilon() * 1e4L;
    int n = int( g.i( 1, 12 ) );
    for ( int i = 0; i < n; ++i )
    {
        auto u = randu<F>( g, 5 ); auto z = randz<F>( g, 30 ), zz = z; for ( auto & v : zz ) v *= f1;
        a.update( u, z ); b.update( u, zz ); vm::event();
        LM xa = toL( a.system_state() ), xb = toL( b.system_state() ), Ka = toL( a.kalman_gain() ), Kb = toL( b.kalman_gain() ), Pa = toL( a.estimation_error_covariance() ), Pb = toL( b.estimation_error_covariance() );
        if ( !( xa.norm() < 1e6L && Pa.norm() < 1e6L ) ) break;
        auto chk = [&]( char const * what, LM const & p, LM const & q, ld f ) { for ( size_t j = 0; j < p.v.size(); ++j ) if ( !vm::close( p.v[j] * f, q.v[j], eps * ( p.norm() + ( what[0] == 's' ? 30 : 1e-3L ) ) * f ) ) { vm::fail( vm::fmt( "scale-%s", what ), "M=%d U=%d step %d: %s is %s, with all standard deviations, states and measurements scaled by 2^%d it is %s; %s", M, U, i, what, showL( p ).c_str(), k, showL( q ).c_str(), showmodel( m ).c_str() ); return; } };
        chk( "state", xa, xb, f1 ); chk( "gain", Ka, Kb, 1 ); chk( "covariance", Pa, Pb, f2 );
    }
    vm::counter( "scaled_runs" ); vm::distinct( hashmodel( s ) );
}
GROUP( scale1, 600, 20000 ) { scaled<double, 1, 1>( g ); scaled<double, 1, 2>( g ); scaled<float, 1, 1>( g ); }
GROUP( scale2, 600, 20000 ) { scaled<double, 2, 1>( g ); scaled<double, 2, 2>( g ); scaled<float, 2, 2>( g ); }
GROUP( d13, 800, 30000 ) { history<double, 1, 3>( g, g.p( .4 ) ); history<float, 2, 3>( g, g.p( .4 ) ); }
GROUP( l11, 800, 30000 ) { history<ld, 1, 1>( g, g.p( .4 ) ); history<ld, 2, 2>( g, g.p( .4 ) ); }
GROUP( d24, 800, 30000 ) { history<double, 2, 4>( g, g.p( .4 ) ); }
// long histories: every single update is still the textbook step
GROUP( long1, 4, 60 ) { int n = g.p( .3 ) ? 70000 : int( g.i( 1000, 9000 ) ); history<double, 1, 1>( g, true, n ); history<double, 2, 2>( g, true, n / 4 ); }
GROUP( long2, 4, 60 ) { int n = g.p( .3 ) ? 70000 : int( g.i( 1000, 9000 ) ); history<float, 1, 1>( g, true, n ); history<double, 2, 1>( g, true, n / 4 ); }
VMON_MAIN
