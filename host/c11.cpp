// C11: algebraic laws of inverse, transpose and identity.
#include "mx.hpp"
using namespace num;

template< class T > void inverse2( vm::Rng & g, int kind )
{
    using Mx = matrix<T, 2, 2>;
    auto p = std::make_unique<Mx>( T( 0 ) ); Mx & m = *p;
    double s = g.logu( 1e-3, 1e3 );
    do
    {
        for ( int i = 0; i < 4; ++i ) m( i ) = T( g.p( .15 ) ? 0 : s * g.uni( -1, 1 ) );
        if ( g.p( .3 ) ) { T v[5] = { T( 0 ), T( s ), T( -s ), T( s * g.uni( -1, 1 ) ), T( s * g.pick( { .25, .5, 2.0 } ) ) }; for ( int i = 0; i < 4; ++i ) m( i ) = v[ g.next() % 5 ]; }   // equal, opposite and simple elements
        if ( kind == 0 ) m( 1, 0 ) = m( 0, 1 );
        if ( kind == 2 ) m( 1, 0 ) = T( 0 );
        if ( kind == 3 ) { m( 0, 0 ) = T( 0 ); }
    } while ( !( std::fabs( double( m( 0, 0 ) ) * m( 1, 1 ) - double( m( 0, 1 ) ) * m( 1, 0 ) ) > .02 * s * s ) );
    LM a = toLM( m ), ref; if ( !lsolve( a, LM::I( 2 ), ref ) ) return;
    Mx r = inverted( m ); LM got = toLM( r ); vm::event();
    ld det = a( 0, 0 ) * a( 1, 1 ) - a( 0, 1 ) * a( 1, 0 ), mag = std::fabs( a( 0, 0 ) * a( 1, 1 ) ) + std::fabs( a( 0, 1 ) * a( 1, 0 ) );
    ld tol = 8 * std::numeric_limits<T>::epsilon() * ( 1 + mag / std::fabs( det ) ) * ref.norm();
    auto eq = [&]( LM const & x, LM const & y ) { for ( int i = 0; i < 4; ++i ) if ( !vm::close( x.v[i], y.v[i], tol ) ) return false; return true; };
    if ( !eq( got, ref ) )
    {
        if ( eq( got, ref.t() ) ) vm::fail( "inverse-2x2-nonsymmetric-is-transposed", "inverted( %s ) gives %s, the inverse is %s", showL( a ).c_str(), showL( got ).c_str(), showL( ref ).c_str() );
        else vm::fail( "inverse-2x2", "inverted( %s ) gives %s, the inverse is %s", showL( a ).c_str(), showL( got ).c_str(), showL( ref ).c_str() );
    }
    else if ( kind == 0 )
    {
        LM prod = toLM( m * r ), prod2 = toLM( r * m );
        ld t2 = tol * a.norm() * 4 + 1e-6L * 0;
        for ( int i = 0; i < 4; ++i ) if ( !vm::close( prod.v[i], i % 3 == 0, t2 ) || !vm::close( prod2.v[i], i % 3 == 0, t2 ) ) vm::fail( "inverse-product", "%s times its inverse gives %s", showL( a ).c_str(), showL( prod ).c_str() );
        if ( !eq( toLM( inverted( m ) ), got ) ) vm::fail( "inverse-repeat", "inverting %s twice gives different results", showL( a ).c_str() );
        vm::counter( "symmetric_inverses" );
    }
    else vm::counter( "nonsymmetric_inverses_correct" );
    if ( toLM( m ).v != a.v ) vm::fail( "inverse-changes-argument", "inverted( %s ) left its argument %s", showL( a ).c_str(), showL( toLM( m ) ).c_str() );
    uint64_t h = kind; for ( auto v : a.v ) h = vm::hashd( h, double( v ) ); vm::distinct( h );
    vm::sample( "inverted( %s ) = %s", showL( a ).c_str(), showL( got ).c_str() );
}
// close to singular, badly scaled, tiny and huge: the inverse exists and rounding of the input decides its accuracy
template< class T > void inverse2ill( vm::Rng & g )
{
    using Mx = matrix<T, 2, 2>; bool f = sizeof( T ) == 4; Mx m( T( 0 ) ); int kind = int( g.i( 0, 4 ) ); double s = f ? g.logu( 1e-12, 1e12 ) : g.logu( 1e-100, 1e100 );
    double x = g.sgn() * g.logu( .1, 3 ), y = g.sgn() * g.logu( .1, 3 ), d = g.sgn() * ( f ? g.logu( 1e-4, .1 ) : g.logu( 1e-11, .1 ) ), k = f ? g.logu( 1e-6, 1e6 ) : g.logu( 1e-40, 1e40 );
    switch ( kind )
    {
        case 0: m( 0, 0 ) = T( s ); m( 0, 1 ) = m( 1, 0 ) = T( s * x ); m( 1, 1 ) = T( s * ( x * x + d ) ); break;          // symmetric, nearly rank one
        case 1: m( 0, 0 ) = T( s ); m( 0, 1 ) = T( s * x ); m( 1, 0 ) = T( s * y ); m( 1, 1 ) = T( s * ( x * y + d ) ); break;  // general, nearly rank one
        case 2: m( 0, 0 ) = T( s * k ); m( 1, 1 ) = T( s / k ); break;                                                        // diagonal over many decades
        case 3: m( 0, 0 ) = T( s * x ); m( 0, 1 ) = T( s * y * g.uni( -1, 1 ) ); m( 1, 0 ) = m( 0, 1 ); m( 1, 1 ) = T( s * y ); break;  // extreme scale
        default: m( 0, 1 ) = T( s * k ); m( 1, 0 ) = T( s / k * x ); m( 1, 1 ) = T( s * g.uni( -1, 1 ) * std::min( k, 1 / k ) );
    }
    LM a = toLM( m ), ref( 2, 2 ); ld p = a( 0, 0 ) * a( 1, 1 ), q = a( 0, 1 ) * a( 1, 0 ), det = p - q, eps = std::numeric_limits<T>::epsilon();
    ld cond = ( std::fabs( p ) + std::fabs( q ) ) / std::fabs( det ); if ( !( cond * eps < 1e-3L ) ) return;
    ref( 0, 0 ) = a( 1, 1 ) / det; ref( 1, 1 ) = a( 0, 0 ) / det; ref( 0, 1 ) = -a( 0, 1 ) / det; ref( 1, 0 ) = -a( 1, 0 ) / det;
    auto in = [&]( ld v ) { return v == 0 || ( std::fabs( v ) < ( f ? 1e35L : 1e280L ) && std::fabs( v ) > ( f ? 1e-35L : 1e-280L ) ); };
    bool ok = in( det ) && in( p ) && in( q ) && in( 1 / det ); for ( int i = 0; i < 4; ++i ) ok = ok && in( ref.v[i] ); if ( !ok ) return;
    LM got = toLM( inverted( m ) ); vm::event(); vm::counter( "ill_conditioned" );
    for ( int i = 0; i < 4; ++i ) if ( !vm::close( got.v[i], ref.v[i], 8 * eps * ( 1 + cond ) * std::fabs( ref.v[i] ) ) )
    {
        bool tr = true; for ( int j = 0; j < 4; ++j ) tr = tr && vm::close( got.v[j], ref.t().v[j], 8 * eps * ( 1 + cond ) * std::fabs( ref.t().v[j] ) );
        vm::fail( tr ? "inverse-2x2-nonsymmetric-is-transposed" : "inverse-2x2", "inverted( %s ) gives %s, the inverse is %s", showL( a ).c_str(), showL( got ).c_str(), showL( ref ).c_str() ); break;
    }
    if ( toLM( m ).v != a.v ) vm::fail( "inverse-changes-argument", "inverted( %s ) left its argument %s", showL( a ).c_str(), showL( toLM( m ) ).c_str() );
    uint64_t h = uint64_t( kind ); for ( auto v : a.v ) h = vm::hashd( h, double( v ) ); vm::distinct( h );
}
template< class T > void inverse1( vm::Rng & g )
{
    T v = T( g.p( .2 ) ? double( g.i( -20, 20 ) ) : g.sgn() * ( g.p( .3 ) ? ( sizeof( T ) == 4 ? g.logu( 1e-37, 1e37 ) : g.logu( 1e-306, 1e306 ) ) : g.logu( 1e-15, 1e15 ) ) ); T keep = v;
    T r = inverted( v ); vm::event();
    if ( v != keep ) vm::fail( "inverse-changes-argument", "inverted( %.17g ) changed its argument", double( v ) );
    if ( v == 0 ) { if ( r != 0 ) vm::fail( "inverse-of-zero", "inverted( 0 ) gives %.17g", double( r ) ); }
    else if ( !vm::close( ld( r ) * v, 1, 3 * std::numeric_limits<T>::epsilon() ) ) vm::fail( "inverse-scalar", "inverted( %.17g ) gives %.17g", double( v ), double( r ) );
    if ( inverted( T( 0 ) ) != 0 || inverted( T( -0.0 ) ) != 0 ) vm::fail( "inverse-of-zero", "inverted( 0 ) gives %.17g", double( inverted( T( 0 ) ) ) );
    vm::distinct( vm::hashd( sizeof( T ), double( v ) ) );
}
template< int F > void inversefx( vm::Rng & g )
{
    using X = fixed_point<int32_t, 31 - F, F>;
    long raw = long( g.sgn() * g.logu( 1 << ( F > 16 ? F - 10 : F / 3 ), 1 << 30 ) ); X v( X::construct, int32_t( raw ) ); vm::event();
    double d = v.as_double(), want = 1 / d;
    if ( std::fabs( want ) > std::ldexp( .9, 31 - F ) ) return;
    X r = inverted( v );
    if ( std::fabs( r.as_double() - want ) > std::ldexp( 1.0, -F ) ) vm::fail( "inverse-fixed", "inverted( %.9g ) gives %.9g, 1/x is %.9g", d, r.as_double(), want );
    if ( inverted( X( 0 ) ).as_double() != 0 ) vm::fail( "inverse-of-zero", "inverted( 0 ) of fixed point gives %.9g", inverted( X( 0 ) ).as_double() );
    X a = X( g.uni( .5, 4 ) ), c = X( g.uni( -.4, .4 ) ), b = X( g.uni( .5, 4 ) ); matrix<X, 2, 2> m = { a, c, c, b };
    LM l = toLM( m ), ref; lsolve( l, LM::I( 2 ), ref ); LM got = toLM( inverted( m ) );
    ld tol = std::ldexp( 1.0L, -F ) * ( 8 + 60 * ref.norm() * ref.norm() );
    for ( int i = 0; i < 4; ++i ) if ( !vm::close( got.v[i], ref.v[i], tol ) ) vm::fail( "inverse-2x2-fixed", "inverted( %s ) gives %s, the inverse is %s", showL( l ).c_str(), showL( got ).c_str(), showL( ref ).c_str() );
    vm::distinct( vm::mix( F, raw ) );
}
template< class T, int N > void vectors( vm::Rng & g )
{
    if constexpr( N > 1 )
    {
        auto r = heaped<rowvec<T, N>>( g ); auto c = heaped<colvec<T, N>>( g ); LM lr = toLM( *r ), lc = toLM( *c );
        auto tr = transposed( *r ); auto tc = transposed( *c );
        if ( toLM( tr ).r != N || toLM( tr ).c != 1 || toLM( tr ).v != lr.v ) vm::fail( "transpose-row", "transposed( %s ) gives %s", showL( lr ).c_str(), showL( toLM( tr ) ).c_str() );
        if ( toLM( tc ).r != 1 || toLM( tc ).c != N || toLM( tc ).v != lc.v ) vm::fail( "transpose-column", "transposed( %s ) gives %s", showL( lc ).c_str(), showL( toLM( tc ) ).c_str() );
        if ( toLM( transposed( tr ) ).v != lr.v || toLM( transposed( tc ) ).v != lc.v ) vm::fail( "transpose-twice", "transposing twice changes %s or %s", showL( lr ).c_str(), showL( lc ).c_str() );
        if ( toLM( *r ).v != lr.v || toLM( *c ).v != lc.v ) vm::fail( "transpose-changes-argument", "transposing changed its argument" );
        // (r c)' = c' r' and (c r)' has swapped indices
        ld m = mul( lr.abs(), lc.abs() )( 0, 0 ), t = ( N + 1 ) * num_<T>::eps() * m + num_<T>::res() * N;
        if ( !vm::close( toLM( *r * *c )( 0, 0 ), toLM( tc * tr )( 0, 0 ), t ) ) vm::fail( "transpose-product", "r*c is %.9Lg, c'*r' is %.9Lg", toLM( *r * *c )( 0, 0 ), toLM( tc * tr )( 0, 0 ) );
        LM o = toLM( *c * *r ), ot = toLM( tr * tc );
        for ( int i = 0; i < N; ++i ) for ( int j = 0; j < N; ++j ) if ( !vm::close( o( i, j ), ot( j, i ), 2 * num_<T>::eps() * std::fabs( o( i, j ) ) + num_<T>::res() ) ) vm::fail( "transpose-product", "(c*r)' differs from r'*c' at %d,%d", i, j );
        uint64_t h = N; for ( auto v : lr.v ) h = vm::hashd( h, double( v ) ); vm::distinct( h );
    }
    // identity
    auto e = eye<T, N>(); LM le = toLM( e );
    if ( le.r != N || le.c != N || le.v != LM::I( N ).v ) vm::fail( "identity", "eye<%d> is %s", N, showL( le ).c_str() );
    auto A = heaped<matrix<T, N, N>>( g ); LM a = toLM( *A ); auto x = heaped<colvec<T, N>>( g ); auto y = heaped<rowvec<T, N>>( g );
    if ( toLM( e * *A ).v != a.v || toLM( *A * e ).v != a.v ) vm::fail( "identity-neutral", "identity times %s gives %s, on the right %s", showL( a ).c_str(), showL( toLM( e * *A ) ).c_str(), showL( toLM( *A * e ) ).c_str() );
    if ( toLM( e * *x ).v != toLM( *x ).v ) vm::fail( "identity-neutral", "identity times %s gives %s", showL( toLM( *x ) ).c_str(), showL( toLM( e * *x ) ).c_str() );
    if ( toLM( *y * e ).v != toLM( *y ).v ) vm::fail( "identity-neutral", "%s times identity gives %s", showL( toLM( *y ) ).c_str(), showL( toLM( *y * e ) ).c_str() );
    vm::event( 6 );
}
template< class T > void square( vm::Rng & g )
{
    auto A = heaped<matrix<T, 2, 2>>( g ); auto B = heaped<matrix<T, 2, 2>>( g ); LM a = toLM( *A ), b = toLM( *B );
    if ( toLM( transposed( *A ) ).v != a.t().v ) vm::fail( "transpose-2x2", "transposed( %s ) gives %s", showL( a ).c_str(), showL( toLM( transposed( *A ) ) ).c_str() );
    if ( toLM( transposed( transposed( *A ) ) ).v != a.v ) vm::fail( "transpose-twice", "transposing %s twice gives %s", showL( a ).c_str(), showL( toLM( transposed( transposed( *A ) ) ) ).c_str() );
    LM l = toLM( transposed( *A * *B ) ), r = toLM( transposed( *B ) * transposed( *A ) ), mag = mul( a.abs(), b.abs() ).t();
    for ( int i = 0; i < 4; ++i ) if ( !vm::close( l.v[i], r.v[i], 4 * num_<T>::eps() * mag.v[i] + 2 * num_<T>::res() ) ) vm::fail( "transpose-product", "(A*B)' is %s, B'*A' is %s for A=%s B=%s", showL( l ).c_str(), showL( r ).c_str(), showL( a ).c_str(), showL( b ).c_str() );
    *A = transposed( *A ); if ( toLM( *A ).v != a.t().v ) vm::fail( "transpose-2x2", "A = transposed( A ) of %s gives %s", showL( a ).c_str(), showL( toLM( *A ) ).c_str() );
    uint64_t h = 3; for ( auto v : a.v ) h = vm::hashd( h, double( v ) ); vm::distinct( h ); vm::event( 3 );
}
// transposing moves values, bit for bit: zeros keep their sign, infinities and NaN their place
template< class T > T odd( vm::Rng & g ) { switch ( g.i( 0, 6 ) ) { case 0: return T( 0 ); case 1: return T( -0.0 ); case 2: return std::numeric_limits<T>::infinity(); case 3: return -std::numeric_limits<T>::infinity(); case 4: return std::numeric_limits<T>::quiet_NaN(); case 5: return std::numeric_limits<T>::denorm_min(); default: return num_<T>::make( g ); } }
template< class T > bool bitsame( T v, T w ) { return std::isnan( w ) ? std::isnan( v ) : v == w && std::signbit( v ) == std::signbit( w ); }
template< class T, int N > void transposebits( vm::Rng & g )
{
    rowvec<T, N> r( T( 0 ) ); colvec<T, N> c( T( 0 ) ); for ( int i = 0; i < N; ++i ) { r( i ) = odd<T>( g ); c( i ) = odd<T>( g ); }
    auto tr = transposed( r ); auto tc = transposed( c ); vm::event( 3 );
    for ( int i = 0; i < N; ++i ) if ( !bitsame<T>( tr( i ), r( i ) ) || !bitsame<T>( tc( i ), c( i ) ) ) vm::fail( "transpose-bits", "transposing %s or %s changes element %d", showL( toLM( r ) ).c_str(), showL( toLM( c ) ).c_str(), i );
    if constexpr( N == 2 )
    {
        matrix<T, 2, 2> m( T( 0 ) ); for ( int i = 0; i < 4; ++i ) m( i ) = odd<T>( g ); if ( g.p( .3 ) ) { m( 0, 1 ) = T( 0 ); m( 1, 0 ) = T( -0.0 ); } auto t = transposed( m ), u = m; u = transposed( u );
        for ( int i = 0; i < 2; ++i ) for ( int j = 0; j < 2; ++j ) if ( !bitsame<T>( t( i, j ), m( j, i ) ) || !bitsame<T>( u( i, j ), m( j, i ) ) ) vm::fail( "transpose-bits", "transposed( %s ) gives %s", showL( toLM( m ) ).c_str(), showL( toLM( t ) ).c_str() );
    }
}
GROUP( bitwise, 1500, 40000 ) { transposebits<double, 2>( g ); transposebits<float, 2>( g ); transposebits<double, 3>( g ); transposebits<float, 5>( g ); }
GROUP( sym_d, 4000, 200000 ) { inverse2<double>( g, 0 ); }
GROUP( sym_l, 1500, 60000 ) { inverse2<ld>( g, 0 ); inverse2<ld>( g, int( g.i( 1, 3 ) ) ); inverse1<ld>( g ); square<ld>( g ); vectors<ld, 2>( g ); vectors<ld, 3>( g ); }
GROUP( sym_f, 4000, 200000 ) { inverse2<float>( g, 0 ); }
GROUP( gen_d, 2000, 100000 ) { inverse2<double>( g, int( g.i( 1, 3 ) ) ); }
GROUP( gen_f, 2000, 100000 ) { inverse2<float>( g, int( g.i( 1, 3 ) ) ); }
GROUP( ill, 3000, 100000 ) { inverse2ill<double>( g ); inverse2ill<float>( g ); }
GROUP( scalar_d, 3000, 100000 ) { inverse1<double>( g ); inverse1<float>( g ); }
GROUP( fixedinv, 3000, 100000 ) { inversefx<15>( g ); inversefx<20>( g ); }
using fx = fixed_point<int32_t, 16, 15>;
GROUP( vec, 500, 20000 ) { vectors<double, 1>( g ); vectors<double, 2>( g ); vectors<double, 3>( g ); vectors<double, 4>( g ); vectors<double, 5>( g ); vectors<double, 6>( g ); vectors<int, 2>( g ); vectors<int, 4>( g ); vectors<float, 3>( g ); vectors<fx, 2>( g ); vectors<fx, 3>( g ); }
GROUP( sq, 3000, 100000 ) { square<double>( g ); square<float>( g ); square<int>( g ); square<fx>( g ); }
VMON_MAIN
