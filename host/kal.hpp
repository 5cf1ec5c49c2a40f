// Kalman model generation shared by the estimator harnesses. Only the library's public API is used.
#ifndef KAL_HPP
#define KAL_HPP
#include <type_traits>
#include "vmon.hpp"
#include "ld.hpp"
#include "num/matrix.hpp"
#include "num/fixed-point.hpp"
#include "dsp/kalman.hpp"

template< class T > double todbl( T const & v ) { return double( v ); }
template< class T, int I, int F > double todbl( num::fixed_point<T, I, F> const & v ) { return v.as_double(); }

template< class T > ld wide( T const & v ) { return ld( v ); }   // without loss
template< class T, int I, int F > ld wide( num::fixed_point<T, I, F> const & v ) { return v.as_double(); }

template< class Mx > LM toL( Mx const & m )
{
    LM r( m.rows(), m.columns() );
    for ( int i = 0; i < r.r; ++i ) for ( int j = 0; j < r.c; ++j ) r( i, j ) = wide( m( i, j ) );
    return r;
}
template< class Mx > void fromL( LM const & l, Mx & m )
{
    for ( int i = 0; i < l.r; ++i ) for ( int j = 0; j < l.c; ++j ) m( i, j ) = typename Mx::value_type( double( l( i, j ) ) );
}

// A model in numbers representable in T (values rounded through the library type).
template< class T, int M, int U >
struct Model
{
    using F = num::kalman<T, 2, M, U>;
    typename F::A_t A; typename F::B_t B; typename F::H_t H; typename F::Q_t Q; typename F::R_t R; typename F::P_t P; typename F::xhat_t x;
    T dt;
    Model() : A( T( 0 ) ), B( T( 0 ) ), H( T( 0 ) ), Q( T( 0 ) ), R( T( 0 ) ), P( T( 0 ) ), x( T( 0 ) ), dt( T( 1 ) ) {}
    F make() const { return F( dt, A, B, H, Q, R, P, x ); }
    LM lA() const { return toL( A ); } LM lB() const { return toL( B ); } LM lH() const { return toL( H ); }
    LM lQ() const { return toL( Q ); } LM lR() const { return toL( R ); } LM lP() const { return toL( P ); }
};

// coincidences: entries equal or opposite to earlier ones, small whole numbers
template< class V > void coincidences( vm::Rng & g, V & v, size_t n ) { if ( !g.p( .25 ) ) return; for ( size_t i = 0; i < n; ++i ) if ( i && g.p( .5 ) ) v[i] = g.p( .6 ) ? v[ g.next() % i ] : -v[ g.next() % i ]; else if ( g.p( .3 ) ) v[i] = double( g.i( -1, 2 ) ); }
inline LM randm( vm::Rng & g, int r, int c, double s ) { LM m( r, c ); for ( auto & x : m.v ) x = g.p( .12 ) ? 0.0 : g.uni( -s, s ); if ( s >= 1 ) coincidences( g, m.v, m.v.size() ); return m; }
// symmetric positive semi-definite n x n; kind: 0 zero, 1 rank one, 2 diagonal, 3 full
inline LM randpsd( vm::Rng & g, int n, double s, int kind )
{
    LM m( n, n );
    if ( kind == 0 ) return m;
    bool alike = g.p( .2 );   // equal variances
    if ( kind == 2 ) { for ( int i = 0; i < n; ++i ) m( i, i ) = alike && i ? m( 0, 0 ) : s * g.uni( .05, 1 ); return m; }
    LM L( n, n ); for ( auto & x : L.v ) x = g.uni( -1, 1 );
    if ( kind == 1 ) for ( int i = 0; i < n; ++i ) for ( int j = 1; j < n; ++j ) L( i, j ) = 0;
    if ( kind == 1 && alike ) for ( int i = 1; i < n; ++i ) L( i, 0 ) = g.p( .5 ) ? L( 0, 0 ) : -L( 0, 0 );
    m = mul( L, L.t() );
    for ( auto & x : m.v ) x *= s;
    if ( kind == 3 ) for ( int i = 0; i < n; ++i ) m( i, i ) += s * .02;
    if ( kind == 3 && alike ) { ld d = 0; for ( int i = 0; i < n; ++i ) d = std::max<ld>( d, m( i, i ) ); if ( g.p( .3 ) ) { d = std::ceil( d ); if ( n == 2 ) m( 0, 1 ) = m( 1, 0 ) = std::round( m( 0, 1 ) * 8 ) / 16; } for ( int i = 0; i < n; ++i ) m( i, i ) = d; }
    return m;
}

// benign: well conditioned (for batch and long runs); otherwise includes degenerate structure
template< class T, int M, int U >
Model<T, M, U> randmodel( vm::Rng & g, bool benign )
{
    Model<T, M, U> m;
    LM A( 2, 2 );
    int ka = int( g.i( 0, 5 ) );
    double dt = g.pick( { 0.01, 0.1, 0.5, 1.0, 2.0 } );
    if ( ka == 0 )      { A( 0, 0 ) = A( 1, 1 ) = 1; A( 0, 1 ) = dt; }
    else if ( ka == 1 ) { A = LM::I( 2 ); if ( g.p( .5 ) ) { A( 0, 0 ) = g.uni( -1, 1 ); A( 1, 1 ) = g.uni( -1, 1 ); } }
    else if ( ka == 2 ) { double w = g.uni( 0, 3 ), r = g.uni( .7, 1 ); A( 0, 0 ) = A( 1, 1 ) = r * cos( w ); A( 0, 1 ) = r * sin( w ); A( 1, 0 ) = -r * sin( w ); }
    else if ( ka == 3 ) { A( 1, 0 ) = g.uni( -1, 1 ); A( 0, 0 ) = g.uni( -1, 1 ); A( 1, 1 ) = g.uni( -1, 1 ); }
    else if ( ka == 4 ) { A = randm( g, 2, 2, benign ? .99 : 1.0 ); }
    else                { A = randm( g, 2, 2, benign ? .9 : 1.6 ); }
    LM B = g.p( .15 ) ? LM( 2, U ) : randm( g, 2, U, 2 );
    LM H( M, 2 );
    int kh = int( g.i( 0, 3 ) );
    if ( kh == 0 )      { for ( int i = 0; i < M; ++i ) H( i, i ) = 1; }
    else if ( kh == 1 ) { for ( int i = 0; i < M; ++i ) H( i, 1 - i ) = 1; }
    else                { H = randm( g, M, 2, 2 ); if ( g.p( .05 ) && !benign ) H = LM( M, 2 ); }
    double qs = benign ? g.logu( 1e-2, 10 ) : g.logu( 1e-4, 1e2 ), rs = benign ? g.logu( 1e-1, 10 ) : g.logu( 1e-3, 1e3 ), ps = benign ? g.logu( 1e-1, 20 ) : g.logu( 1e-3, 1e3 );
    LM Q = randpsd( g, 2, qs, int( g.i( benign ? 2 : 0, 3 ) ) );
    LM R = randpsd( g, M, rs, int( g.i( benign ? 2 : ( M == 1 ? 0 : 1 ), 3 ) ) );
    LM P = randpsd( g, 2, ps, int( g.i( benign ? 2 : 0, 3 ) ) );
    if ( g.p( .08 ) && ( P( 0, 0 ) == 0 ) == ( Q( 0, 0 ) == 0 ) ) P = Q;
    LM x( 2, 1 ); x( 0, 0 ) = g.uni( -20, 20 ); x( 1, 0 ) = g.uni( -20, 20 );
    if ( g.p( .2 ) ) x = LM( 2, 1 ); else if ( g.p( .1 ) ) x( 1, 0 ) = g.p( .5 ) ? x( 0, 0 ) : -x( 0, 0 ); else if ( g.p( .1 ) ) x( 0, 0 ) = std::round( x( 0, 0 ) );
    fromL( A, m.A ); fromL( B, m.B ); fromL( H, m.H ); fromL( Q, m.Q ); fromL( R, m.R ); fromL( P, m.P ); fromL( x, m.x );
    // exact symmetry after rounding
    m.Q( 0, 1 ) = m.Q( 1, 0 ); m.P( 0, 1 ) = m.P( 1, 0 );
    if constexpr( M == 2 ) m.R( 0, 1 ) = m.R( 1, 0 );
    // a model may leave time alone (0) or run backwards
    m.dt = T( g.p( .06 ) ? 0.0 : g.p( .06 ) ? -dt : dt );
    return m;
}

template< class F > typename F::u_t randu( vm::Rng & g, double s )
{
    typename F::u_t u( typename F::real_t( 0 ) );
    double v[8]; for ( int i = 0; i < u.rows(); ++i ) v[i] = g.p( .1 ) ? 0.0 : g.uni( -s, s );
    if ( s >= 2 ) coincidences( g, v, size_t( u.rows() ) );
    for ( int i = 0; i < u.rows(); ++i ) u( i ) = typename F::real_t( v[i] );
    return u;
}
template< class F > typename F::z_t randz( vm::Rng & g, double s )
{
    typename F::z_t z( typename F::real_t( 0 ) );
    double v[8]; for ( int i = 0; i < z.rows(); ++i ) v[i] = g.p( .05 ) ? 0.0 : g.uni( -s, s );
    if ( s >= 2 ) coincidences( g, v, size_t( z.rows() ) );
    for ( int i = 0; i < z.rows(); ++i ) z( i ) = typename F::real_t( v[i] );
    return z;
}
template< class M > std::string show( M const & m )
{
    std::string s = "[";
    for ( int i = 0; i < m.rows(); ++i ) for ( int j = 0; j < m.columns(); ++j ) s += vm::fmt( "%s%.9g", ( i || j ) ? ( j ? " " : "; " ) : "", todbl( m( i, j ) ) );
    return s + "]";
}
inline std::string showL( LM const & m )
{
    std::string s = "[";
    for ( int i = 0; i < m.r; ++i ) for ( int j = 0; j < m.c; ++j ) s += vm::fmt( "%s%.9Lg", ( i || j ) ? ( j ? " " : "; " ) : "", m( i, j ) );
    return s + "]";
}
template< class Mo > std::string showmodel( Mo const & m )
{
    return "A=" + show( m.A ) + " B=" + show( m.B ) + " H=" + show( m.H ) + " Q=" + show( m.Q ) + " R=" + show( m.R ) + " P0=" + show( m.P ) + " x0=" + show( m.x );
}
template< class Mo > uint64_t hashmodel( Mo const & m )
{
    uint64_t h = 1;
    for ( auto l : { m.lA(), m.lB(), m.lH(), m.lQ(), m.lR(), m.lP() } ) for ( auto x : l.v ) h = vm::hashd( h, double( x ) );
    return h;
}

// One predict-correct step in long double, with an a-priori bound on T's rounding error.
struct Step { LM x, K, P, Pm; ld tx, tK, tP; bool ok; ld kappa, Sinv; };
inline Step refstep( LM const & A, LM const & B, LM const & H, LM const & Q, LM const & R, LM const & P, LM const & x, LM const & u, LM const & z, ld eps )
{
    Step s; s.ok = true;
    LM xm = add( mul( A, x ), mul( B, u ) );
    LM xa = add( mul( A.abs(), x.abs() ), mul( B.abs(), u.abs() ) );
    LM Pm = add( mul( mul( A, P ), A.t() ), Q );
    LM Pa = add( mul( mul( A.abs(), P.abs() ), A.t().abs() ), Q.abs() );
    LM S = add( mul( mul( H, Pm ), H.t() ), R );
    LM Sa = add( mul( mul( H.abs(), Pa ), H.t().abs() ), R.abs() );
    LM Si;
    if ( !lsolve( S, LM::I( S.r ), Si ) ) { s.ok = false; return s; }
    ld kap = mul( Si.abs(), Sa ).norm() * S.r;
    s.kappa = kap; s.Sinv = Si.norm();
    if ( !( kap > 0 ) || !std::isfinite( kap ) ) { s.ok = false; return s; }
    LM K = mul( mul( Pm, H.t() ), Si );
    LM Ka = mul( mul( Pa, H.t().abs() ), Si.abs() );
    LM y = add( z, mul( H, xm ), -1 );
    LM ya = add( z.abs(), mul( H.abs(), xa ) );
    s.x = add( xm, mul( K, y ) );
    s.K = K;
    LM IKH = add( LM::I( 2 ), mul( K, H ), -1 );
    s.P = mul( IKH, Pm );
    s.Pm = Pm;
    ld e = 40 * eps * ( 1 + kap );
    s.tK = e * Ka.norm();
    s.tx = e * ( xa.norm() + 2 * mul( Ka, ya ).norm() );
    LM KHa = add( LM::I( 2 ), mul( Ka, H.abs() ) );
    s.tP = e * 2 * mul( KHa, Pa ).norm() + mul( mul( KHa, Pa ), KHa.t() ).norm() * eps * 8;
    return s;
}
#endif
