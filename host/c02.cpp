// C02: recursive estimate == batch Gaussian posterior; gain and covariance independent of the
// data; estimate linear in prior mean, controls and measurements.
#include "kal.hpp"
#include <limits>

template< class T, int M, int U >
void batch( vm::Rng & g )
{
    using F = num::kalman<T, 2, M, U>;
    const ld eps = std::numeric_limits<T>::epsilon();
    auto m = randmodel<T, M, U>( g, true );
    auto f = m.make();
    const LM A = m.lA(), B = m.lB(), H = m.lH(), Q = m.lQ(), R = m.lR();
    int n = int( g.i( 1, 12 ) );
    // joint prior over the stacked states x1..xn: mean mu, covariance blocks C(i,j) = cov(xi,xj)
    LM mu( 2 * n, 1 ), S( 2 * n, 2 * n ), Z( M * n, 1 );
    LM xm = toL( m.x ), Pk = m.lP();
    for ( int k = 0; k < n; ++k )
    {
        auto u = randu<F>( g, 5 ); auto z = randz<F>( g, 20 );
        f.update( u, z ); vm::event();
        LM lz = toL( z );
        for ( int i = 0; i < M; ++i ) Z( k * M + i, 0 ) = lz( i, 0 );
        xm = add( mul( A, xm ), mul( B, toL( u ) ) );
        Pk = add( mul( mul( A, Pk ), A.t() ), Q );
        for ( int i = 0; i < 2; ++i ) { mu( 2 * k + i, 0 ) = xm( i, 0 ); for ( int j = 0; j < 2; ++j ) S( 2 * k + i, 2 * k + j ) = Pk( i, j ); }
        for ( int b = 0; b < k; ++b )       // cov(xk, xb) = A cov(xk-1, xb)
        {
            LM c( 2, 2 ); for ( int i = 0; i < 2; ++i ) for ( int j = 0; j < 2; ++j ) c( i, j ) = S( 2 * ( k - 1 ) + i, 2 * b + j );
            c = mul( A, c );
            for ( int i = 0; i < 2; ++i ) for ( int j = 0; j < 2; ++j ) S( 2 * k + i, 2 * b + j ) = S( 2 * b + j, 2 * k + i ) = c( i, j );
        }
    }
    LM HH( M * n, 2 * n ), RR( M * n, M * n );
    for ( int k = 0; k < n; ++k ) for ( int i = 0; i < M; ++i )
    {
        for ( int j = 0; j < 2; ++j ) HH( k * M + i, 2 * k + j ) = H( i, j );
        for ( int j = 0; j < M; ++j ) RR( k * M + i, k * M + j ) = R( i, j );
    }
    LM W = add( mul( mul( HH, S ), HH.t() ), RR ), C( 2, M * n ), SH = mul( S, HH.t() );
    for ( int i = 0; i < 2; ++i ) for ( int j = 0; j < M * n; ++j ) C( i, j ) = SH( 2 * ( n - 1 ) + i, j );
    LM Wi = linv( W ); if ( Wi.v.empty() ) { vm::counter( "singular_history" ); return; }
    ld kap = std::max( W.norm(), mul( mul( HH.abs(), S.abs() ), HH.t().abs() ).norm() ) * Wi.norm() * M * n;   // cancellation in H S H' counts
    LM xe( 2, 1 ), Pe( 2, 2 );
    for ( int i = 0; i < 2; ++i ) { xe( i, 0 ) = mu( 2 * ( n - 1 ) + i, 0 ); for ( int j = 0; j < 2; ++j ) Pe( i, j ) = S( 2 * ( n - 1 ) + i, 2 * ( n - 1 ) + j ); }
    LM G = mul( C, Wi );
    ld grow = S.norm();
    LM inn = add( Z, mul( HH, mu ), -1 );
    xe = add( xe, mul( G, inn ) );
    Pe = add( Pe, mul( G, C.t() ), -1 );
    ld tol = 100 * eps * ( 1 + kap ) * n;
    if ( tol > .01L ) { vm::counter( "ill_conditioned_skipped" ); return; }
    ld tx = tol * ( mu.norm() + mul( G.abs(), inn.abs() ).norm() + 1 ), tP = tol * ( grow + 1 );
    LM x = toL( f.system_state() ), P = toL( f.estimation_error_covariance() );
    for ( int i = 0; i < 2; ++i ) if ( !vm::close( x( i, 0 ), xe( i, 0 ), tx ) )
        vm::fail( "posterior-mean", "after %d updates state=%s batch posterior mean=%s tol %.3Lg; %s", n, showL( x ).c_str(), showL( xe ).c_str(), tx, showmodel( m ).c_str() );
    for ( int i = 0; i < 4; ++i ) if ( !vm::close( P.v[i], Pe.v[i], tP ) )
        vm::fail( "posterior-covariance", "after %d updates P=%s batch posterior covariance=%s tol %.3Lg; %s", n, showL( P ).c_str(), showL( Pe ).c_str(), tP, showmodel( m ).c_str() );
    vm::counter( "batch_compared" ); vm::distinct( hashmodel( m ) );
    vm::sample( "n=%d posterior=%s cov=%s kappa=%.3Lg %s", n, showL( xe ).c_str(), showL( Pe ).c_str(), kap, showmodel( m ).c_str() );
}

// long histories: the posterior of the current state by orthogonal elimination (square-root information form, which
// shares no step with the filter's recursion), compared at many points of one history
struct SqrtInfo
{
    LM R = LM( 2, 2 ), b = LM( 2, 1 ); bool ok = true;
    static LM chol( LM const & S, bool & ok )   // lower triangular L, L L' = S
    {
        LM L( S.r, S.r );
        for ( int j = 0; j < S.r; ++j ) for ( int i = j; i < S.r; ++i ) { ld v = S( i, j ); for ( int k = 0; k < j; ++k ) v -= L( i, k ) * L( j, k ); if ( i == j ) { if ( !( v > 0 ) ) { ok = false; v = 1; } L( i, j ) = std::sqrt( v ); } else L( i, j ) = v / L( j, j ); }
        return L;
    }
    // Givens elimination of the columns below the diagonal
    static void reduce( LM & M ) { for ( int j = 0; j < M.c - 1; ++j ) for ( int i = M.r - 1; i > j; --i ) { ld p = M( j, j ), q = M( i, j ); if ( q == 0 ) continue; ld h = std::hypot( p, q ), c = p / h, s = q / h; for ( int k = 0; k < M.c; ++k ) { ld u = M( j, k ), v = M( i, k ); M( j, k ) = c * u + s * v; M( i, k ) = c * v - s * u; } } }
    SqrtInfo( LM const & P, LM const & x ) { R = linv( chol( P, ok ) ); if ( R.v.empty() ) { ok = false; R = LM( 2, 2 ); } b = mul( R, x ); }
    void predict( LM const & Ai, LM const & Bu, LM const & W )   // W: inverse factor of the process noise
    {
        LM RA = mul( R, Ai ), c = add( b, mul( RA, Bu ) ), M( 4, 5 );
        for ( int i = 0; i < 2; ++i ) { for ( int j = 0; j < 2; ++j ) { M( i, j ) = W( i, j ); M( i + 2, j ) = -RA( i, j ); M( i + 2, j + 2 ) = RA( i, j ); } M( i + 2, 4 ) = c( i, 0 ); }
        reduce( M ); for ( int i = 0; i < 2; ++i ) { for ( int j = 0; j < 2; ++j ) R( i, j ) = M( i + 2, j + 2 ); b( i, 0 ) = M( i + 2, 4 ); }
    }
    void measure( LM const & V, LM const & H, LM const & z )     // V: inverse factor of the measurement noise
    {
        LM VH = mul( V, H ), Vz = mul( V, z ), M( 2 + H.r, 3 );
        for ( int i = 0; i < 2; ++i ) { for ( int j = 0; j < 2; ++j ) M( i, j ) = R( i, j ); M( i, 2 ) = b( i, 0 ); }
        for ( int i = 0; i < H.r; ++i ) { for ( int j = 0; j < 2; ++j ) M( 2 + i, j ) = VH( i, j ); M( 2 + i, 2 ) = Vz( i, 0 ); }
        reduce( M ); for ( int i = 0; i < 2; ++i ) { for ( int j = 0; j < 2; ++j ) R( i, j ) = M( i, j ); b( i, 0 ) = M( i, 2 ); }
    }
    bool regular() const { return R( 0, 0 ) != 0 && R( 1, 1 ) != 0 && std::isfinite( R( 0, 0 ) ) && std::isfinite( R( 0, 1 ) ) && std::isfinite( R( 1, 1 ) ); }
    LM inv() const { LM X( 2, 2 ); X( 0, 0 ) = 1 / R( 0, 0 ); X( 1, 1 ) = 1 / R( 1, 1 ); X( 0, 1 ) = -R( 0, 1 ) * X( 0, 0 ) * X( 1, 1 ); return X; }   // R is upper triangular after a reduction
    LM cov() const { LM Ri = inv(); return mul( Ri, Ri.t() ); }
    LM mean() const { return mul( inv(), b ); }
};
template< class T, int M, int U >
void longbatch( vm::Rng & g )
{
    using F = num::kalman<T, 2, M, U>;
    auto m = randmodel<T, M, U>( g, true ); auto f = m.make(); const ld eps = std::numeric_limits<T>::epsilon();
    const LM A = m.lA(), B = m.lB(), H = m.lH(), Q = m.lQ(), R = m.lR();
    ld det = A( 0, 0 ) * A( 1, 1 ) - A( 0, 1 ) * A( 1, 0 ); if ( !( A.norm() > 1e-6L && std::fabs( det ) > .05L * A.norm() * A.norm() ) ) { vm::counter( "long_not_invertible" ); return; }
    SqrtInfo s( m.lP(), toL( m.x ) ); LM Ai = linv( A ), W = linv( SqrtInfo::chol( Q, s.ok ) ), V = linv( SqrtInfo::chol( R, s.ok ) ); if ( !s.ok || Ai.v.empty() || W.v.empty() || V.v.empty() || s.R.v.empty() ) { vm::counter( "long_not_invertible" ); return; }
    int n = int( g.p( .2 ) ? g.i( 700, 3000 ) : g.i( 13, 300 ) ), every = std::max( 1, n / 12 ), seen = 0; ld worst = 1;
    for ( int k = 0; k < n; ++k )
    {
        auto u = randu<F>( g, 5 ); auto z = randz<F>( g, 20 ); f.update( u, z ); vm::event();
        s.predict( Ai, mul( B, toL( u ) ), W ); if ( !s.regular() ) { vm::counter( "long_ill_conditioned" ); break; } LM Sk = add( mul( mul( H, s.cov() ), H.t() ), R ), Si = linv( Sk ); if ( Si.v.empty() ) { vm::counter( "long_ill_conditioned" ); break; } worst = std::max( worst, std::max( Sk.norm(), mul( mul( H.abs(), s.cov().abs() ), H.t().abs() ).norm() ) * Si.norm() * M );   // cancellation in H P H' counts
         s.measure( V, H, toL( z ) );
        if ( k % every && k != n - 1 ) continue;
        if ( !s.regular() ) { vm::counter( "long_ill_conditioned" ); break; } LM x = s.mean(), P = s.cov(), gx = toL( f.system_state() ), gP = toL( f.estimation_error_covariance() );
        ld amp = 1000 * eps * worst * worst * ( k + 1 ); if ( !( x.norm() < 1e6L && P.norm() < 1e5L && amp < .02L ) ) { vm::counter( "long_ill_conditioned" ); break; }
        ld tx = amp * ( x.norm() + 100 ), tP = amp * ( P.norm() + R.norm() + Q.norm() ); ++seen;
        for ( int i = 0; i < 2; ++i ) if ( !vm::close( gx( i, 0 ), x( i, 0 ), tx ) ) { vm::fail( "posterior-mean", "after %d updates state=%s, least-squares solution of the whole history %s tol %.3Lg; %s", k + 1, showL( gx ).c_str(), showL( x ).c_str(), tx, showmodel( m ).c_str() ); return; }
        for ( int i = 0; i < 4; ++i ) if ( !vm::close( gP.v[i], P.v[i], tP ) ) { vm::fail( "posterior-covariance", "after %d updates P=%s, least-squares solution of the whole history %s tol %.3Lg; %s", k + 1, showL( gP ).c_str(), showL( P ).c_str(), tP, showmodel( m ).c_str() ); return; }
        vm::counter( "long_compared" );
        { static ld w = 0; ld r = 0; for ( int i = 0; i < 2; ++i ) r = std::max( r, std::fabs( gx( i, 0 ) - x( i, 0 ) ) / tx ); for ( int i = 0; i < 4; ++i ) r = std::max( r, std::fabs( gP.v[i] - P.v[i] ) / tP ); if ( getenv( "WORST" ) && r > w ) { w = r; fprintf( stderr, "long %.3Lg at %d\n", r, k ); } }
    }
    if ( seen ) vm::distinct( hashmodel( m ) + 13 );
    vm::sample( "n=%d, %d points compared, %s", n, seen, showmodel( m ).c_str() );
}
template< class T, int M, int U >
void dataindep( vm::Rng & g )
{
    using F = num::kalman<T, 2, M, U>;
    auto m = randmodel<T, M, U>( g, true );
    auto m2 = m; m2.x( 0 ) = T( g.uni( -50, 50 ) ); m2.x( 1 ) = T( g.uni( -50, 50 ) );
    auto ms = m; double a = g.pick( { -3.0, -1.0, .25, .5, 2.0 } );
    for ( int i = 0; i < 2; ++i ) ms.x( i ) = T( m.x( i ) + T( a ) * m2.x( i ) );
    auto f1 = m.make(); auto f2 = m2.make(); auto fs = ms.make();
    int n = int( g.i( 1, 30 ) ); ld mag = 60, gl = 1;
    for ( int k = 0; k < n; ++k )
    {
        auto u1 = randu<F>( g, 5 ); auto z1 = randz<F>( g, 20 ); auto u2 = randu<F>( g, g.pick( { 0.0, 5.0, 500.0 } ) ); auto z2 = randz<F>( g, g.pick( { 0.0, 20.0, 2000.0 } ) );
        typename F::u_t us( T( 0 ) ); typename F::z_t zs( T( 0 ) );
        for ( int i = 0; i < U; ++i ) us( i ) = T( u1( i ) + T( a ) * u2( i ) );
        for ( int i = 0; i < M; ++i ) zs( i ) = T( z1( i ) + T( a ) * z2( i ) );
        f1.update( u1, z1 ); f2.update( u2, z2 ); fs.update( us, zs ); vm::event( 3 );
        LM P1 = toL( f1.estimation_error_covariance() ), P2 = toL( f2.estimation_error_covariance() ), K1 = toL( f1.kalman_gain() ), K2 = toL( f2.kalman_gain() );
        for ( int i = 0; i < 4; ++i ) if ( !vm::close( P1.v[i], P2.v[i], 1e-6L * ( 1e-9L + P1.norm() ) ) )
            vm::fail( "covariance-depends-on-data", "step %d P=%s with one data history, %s with another; %s", k, showL( P1 ).c_str(), showL( P2 ).c_str(), showmodel( m ).c_str() );
        for ( size_t i = 0; i < K1.v.size(); ++i ) if ( !vm::close( K1.v[i], K2.v[i], 1e-6L * ( 1e-9L + K1.norm() ) ) )
            vm::fail( "gain-depends-on-data", "step %d K=%s with one data history, %s with another; %s", k, showL( K1 ).c_str(), showL( K2 ).c_str(), showmodel( m ).c_str() );
        LM x1 = toL( f1.system_state() ), x2 = toL( f2.system_state() ), xs = toL( fs.system_state() );
        mag = std::max( mag, x1.norm() + 3 * x2.norm() + 6000 ); gl = std::max( gl, K1.norm() + 1 );
        ld tol = ( sizeof( T ) == 4 ? 1e-4L : 1e-10L ) * mag * gl * gl * ( k + 1 );
        if ( mag * gl * gl > 1e8L ) break;
        for ( int i = 0; i < 2; ++i ) if ( !vm::close( xs( i, 0 ), x1( i, 0 ) + a * x2( i, 0 ), tol ) )
            vm::fail( "not-linear-in-data", "step %d estimate of combined history %s, combination of estimates %.12Lg (component %d, factor %g); %s", k, showL( xs ).c_str(), x1( i, 0 ) + a * x2( i, 0 ), i, a, showmodel( m ).c_str() );
    }
    vm::distinct( hashmodel( m ) + 7 );
    vm::sample( "n=%d factor=%g %s", n, a, showmodel( m ).c_str() );
}
GROUP( batch_d11, 1200, 40000 ) { batch<double, 1, 1>( g ); }
GROUP( batch_d21, 1000, 40000 ) { batch<double, 2, 1>( g ); }
GROUP( batch_d12, 1200, 40000 ) { batch<double, 1, 2>( g ); }
GROUP( batch_d22, 1000, 40000 ) { batch<double, 2, 2>( g ); }
GROUP( batch_f11, 1000, 30000 ) { batch<float, 1, 1>( g ); }
GROUP( batch_f22, 1000, 30000 ) { batch<float, 2, 2>( g ); }
GROUP( data_d11, 1000, 30000 ) { dataindep<double, 1, 1>( g ); }
GROUP( data_d21, 1000, 30000 ) { dataindep<double, 2, 1>( g ); }
GROUP( data_d12, 1000, 30000 ) { dataindep<double, 1, 2>( g ); }
GROUP( data_d22, 1000, 30000 ) { dataindep<double, 2, 2>( g ); }
GROUP( data_f21, 1000, 30000 ) { dataindep<float, 2, 1>( g ); }
GROUP( batch_d13, 600, 20000 ) { batch<double, 1, 3>( g ); batch<double, 2, 4>( g ); }
GROUP( data_d13, 600, 20000 ) { dataindep<double, 1, 3>( g ); }
GROUP( long_d1, 300, 10000 ) { longbatch<double, 1, 1>( g ); longbatch<double, 1, 2>( g ); }
GROUP( long_d2, 300, 10000 ) { longbatch<double, 2, 1>( g ); }
GROUP( long_f1, 300, 10000 ) { longbatch<float, 1, 1>( g ); longbatch<float, 2, 2>( g ); }
VMON_MAIN
