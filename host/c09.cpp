// C09: matrix arithmetic against long double definitions, over every accepted pair of shapes.
#include "mx.hpp"
using fx = num::fixed_point<int32_t, 16, 15>;
#if IN_PART( 0 )
GROUP( dbl, 150, 4000 ) { sweep<double, many>( g ); }
#endif
#if IN_PART( 1 )
GROUP( flt, 100, 3000 )  { sweep<float, some>( g ); }
#endif
#if IN_PART( 2 )
GROUP( integer, 150, 4000 ) { sweep<int, some>( g ); }
#endif
#if IN_PART( 3 )
GROUP( fixedpt, 100, 3000 ) { sweep<fx, some>( g ); }
#endif

// longer expressions as the estimator writes them, mixing shapes
template< class T > void expr( vm::Rng & g )
{
    using namespace num;
    auto A = heaped<matrix<T,2,2>>( g ); auto B = heaped<matrix<T,2,1>>( g ); auto H = heaped<matrix<T,1,2>>( g ); auto R = heaped<matrix<T,1,1>>( g ); auto x = heaped<colvec<T,2>>( g ); auto u = heaped<colvec<T,1>>( g ); auto P = heaped<matrix<T,2,2>>( g );
    LM a = toLM( *A ), b = toLM( *B ), h = toLM( *H ), r = toLM( *R ), lx = toLM( *x ), lu = toLM( *u ), p = toLM( *P );
    LM w1 = add( mul( a, lx ), mul( b, lu ) ), m1 = add( mul( a.abs(), lx.abs() ), mul( b.abs(), lu.abs() ) );
    LM g1 = toLM( *A * *x + *B * *u );
    if ( !agree<T>( g1, w1, m1, 8 ) ) vm::fail( "expression", "A*x+B*u: A=%s x=%s B=%s u=%s gives %s, expected %s", showL( a ).c_str(), showL( lx ).c_str(), showL( b ).c_str(), showL( lu ).c_str(), showL( g1 ).c_str(), showL( w1 ).c_str() );
    LM w2 = add( mul( mul( h, p ), h.t() ), r ), m2 = add( mul( mul( h.abs(), p.abs() ), h.abs().t() ), r.abs() );
    LM g2 = toLM( *H * *P * transposed( *H ) + *R );
    ld slack = num_<T>::res() * h.norm() * 4;
    if ( g2.r != 1 || g2.c != 1 || !vm::close( g2( 0, 0 ), w2( 0, 0 ), slack + 12 * ( num_<T>::eps() * m2( 0, 0 ) + num_<T>::res() ) ) ) vm::fail( "expression", "H*P*H'+R: H=%s P=%s R=%s gives %s, expected %s", showL( h ).c_str(), showL( p ).c_str(), showL( r ).c_str(), showL( g2 ).c_str(), showL( w2 ).c_str() );
    vm::event( 2 ); uint64_t hh = 5; for ( auto v : a.v ) hh = vm::hashd( hh, double( v ) ); vm::distinct( hh );
    vm::sample( "A=%s x=%s B=%s u=%s -> %s", showL( a ).c_str(), showL( lx ).c_str(), showL( b ).c_str(), showL( lu ).c_str(), showL( g1 ).c_str() );
}
#if IN_PART( 4 )
GROUP( expr_d, 3000, 100000 ) { expr<double>( g ); }
#endif
#if IN_PART( 4 )
GROUP( expr_f, 3000, 100000 ) { expr<float>( g ); }
#endif

// long vectors and larger squares: products whose number of terms is no small constant
template< class T, int N > void longvec( vm::Rng & g )
{
    using namespace num; const Tol t{ num_<T>::eps(), num_<T>::res(), num_<T>::name() };
    auto r = heaped<matrix<T,1,N>>( g ); auto c = heaped<matrix<T,N,1>>( g ); auto q = heaped<matrix<T,N,1>>( g ); auto p = heaped<matrix<T,1,N>>( g );
    if ( g.p( .3 ) ) { int at = int( g.i( 0, N - 1 ) ); for ( int i = 0; i < N; ++i ) if ( i != at ) ( *r )( i ) = T( 0 ); }      // one term alone
    LM lr = toLM( *r ), lc = toLM( *c );
    judge( t, '*', "dot", lr, lc, toLM( *r * *c ) );
    judge( t, '+', "op", lc, toLM( *q ), toLM( *c + *q ) ); judge( t, '-', "op", lc, toLM( *q ), toLM( *c - *q ) );
    judge( t, '+', "op", lr, toLM( *p ), toLM( *r + *p ) ); judge( t, '-', "op", lr, toLM( *p ), toLM( *r - *p ) );
    if constexpr( N <= 20 )
    {
        judge( t, '*', "outer", lc, lr, toLM( *c * *r ) );
        auto A = heaped<matrix<T,N,N>>( g ); LM a = toLM( *A );
        judge( t, '*', "op", a, lc, toLM( *A * *c ) ); judge( t, '*', "op", lr, a, toLM( *r * *A ) ); judge( t, '*', "twice", a, a, toLM( *A * *A ) );
        auto W = heaped<matrix<T,2,N>>( g ); auto V = heaped<matrix<T,N,3>>( g ); LM w = toLM( *W ), v = toLM( *V );
        judge( t, '*', "op", w, lc, toLM( *W * *c ) ); judge( t, '*', "op", lr, v, toLM( *r * *V ) );
        *A = *A * *A; judge( t, '*', "alias-both", a, a, toLM( *A ) );
    }
    if ( toLM( *r ).v != lr.v || toLM( *c ).v != lc.v ) vm::fail( "operand-changed", "products changed their operands" );
    uint64_t h = N; for ( auto v : lr.v ) h = vm::hashd( h, double( v ) ); vm::distinct( h );
}
template< class T > void longvecs( vm::Rng & g ) { longvec<T, 5>( g ); longvec<T, 6>( g ); longvec<T, 7>( g ); longvec<T, 8>( g ); longvec<T, 9>( g ); longvec<T, 10>( g ); longvec<T, 11>( g ); longvec<T, 12>( g ); longvec<T, 13>( g ); longvec<T, 15>( g ); longvec<T, 16>( g ); longvec<T, 17>( g ); longvec<T, 20>( g ); longvec<T, 31>( g ); longvec<T, 33>( g ); longvec<T, 65>( g ); longvec<T, 130>( g ); longvec<T, 260>( g ); }
#if IN_PART( 4 )
GROUP( longd, 100, 3000 ) { longvecs<double>( g ); }
#endif
#if IN_PART( 4 )
GROUP( longi, 100, 3000 ) { longvecs<int>( g ); }
#endif

// elements wider than double: nothing may pass through a narrower type on the way
template< class T, int N, int M, int L > void wider( vm::Rng & g )
{
    using namespace num; const Tol t{ num_<T>::eps(), num_<T>::res(), num_<T>::name() };
    auto A = heaped<matrix<T,N,M>>( g ); auto C = heaped<matrix<T,N,M>>( g ); auto r = heaped<matrix<T,1,N>>( g ); auto c = heaped<matrix<T,M,1>>( g ); auto d = heaped<matrix<T,N,1>>( g ); T v = num_<T>::make( g ); LM a = toLM( *A ), lc = toLM( *c ), lr = toLM( *r ), ld_ = toLM( *d ), lv( 1, 1 ); lv( 0, 0 ) = lossless( v );
    judge( t, '+', "wide", a, toLM( *C ), toLM( *A + *C ) ); judge( t, '-', "wide", a, toLM( *C ), toLM( *A - *C ) );
    judge( t, '*', "wide", a, lv, toLM( *A * v ) ); judge( t, '*', "wide", lv, a, toLM( v * *A ) ); judge( t, '+', "wide", a, lv, toLM( *A + v ) ); judge( t, '-', "wide", a, lv, toLM( *A - v ) );
    if constexpr( M != 1 ) judge( t, '*', "wide", a, lc, toLM( *A * *c ) );
    if constexpr( N != 1 ) { judge( t, '*', "wide", lr, a, toLM( *r * *A ) ); judge( t, '*', "wide", lr, ld_, toLM( *r * *d ) ); judge( t, '*', "wide", ld_, lr, toLM( *d * *r ) ); }
    if constexpr( N == M ) judge( t, '*', "wide", a, toLM( *C ), toLM( *A * *C ) );
    auto B = heaped<matrix<T,M,L>>( g ); if constexpr( can<Times, matrix<T,N,M>, matrix<T,M,L>>::value ) judge( t, '*', "wide", a, toLM( *B ), toLM( *A * *B ) );
    uint64_t h = N * 10 + M; for ( auto x : a.v ) h = vm::hashd( h, double( x ) ); vm::distinct( h );
}
#if IN_PART( 5 )
GROUP( wide_l, 1500, 40000 ) { wider<ld, 2, 2, 2>( g ); wider<ld, 2, 1, 2>( g ); wider<ld, 2, 3, 1>( g ); wider<ld, 3, 3, 2>( g ); wider<ld, 5, 4, 3>( g ); }
GROUP( wide_i, 1500, 40000 ) { wider<long long, 2, 2, 2>( g ); wider<long long, 1, 2, 2>( g ); wider<long long, 3, 3, 3>( g ); wider<long long, 4, 5, 2>( g ); wider<long long, 8, 8, 1>( g ); }
#endif

// scalars of another type than the elements
template< class T, int N, int M > void mixed( vm::Rng & g )
{
    using Mx = num::matrix<T, N, M>;
    auto A = heaped<Mx>( g ); LM a = toLM( *A ); int k = int( g.i( -9, 9 ) ); double d = g.i( -20, 20 ) / 4.0; if ( std::is_same<T, int>::value ) d = k;
    auto chk = [&]( char const * what, LM const & got, auto f )
    {
        LM w( N, M ), m( N, M ); for ( size_t i = 0; i < w.v.size(); ++i ) { w.v[i] = f( a.v[i] ); m.v[i] = std::fabs( a.v[i] ) * 21 + 21; }
        vm::event(); if ( !agree<T>( got, w, m, 2 ) ) vm::fail( vm::fmt( "scalar-%s", what ), "%s: %s with int %d, double %g gives %s, expected %s", num_<T>::name(), showL( a ).c_str(), k, d, showL( got ).c_str(), showL( w ).c_str() );
    };
    chk( "A*int", toLM( *A * k ), [&]( ld x ) { return x * k; } ); chk( "int*A", toLM( k * *A ), [&]( ld x ) { return x * k; } );
    chk( "A+int", toLM( *A + k ), [&]( ld x ) { return x + k; } ); chk( "int+A", toLM( k + *A ), [&]( ld x ) { return x + k; } ); chk( "A-int", toLM( *A - k ), [&]( ld x ) { return x - k; } );
    chk( "A*double", toLM( *A * d ), [&]( ld x ) { return x * d; } ); chk( "double*A", toLM( d * *A ), [&]( ld x ) { return x * d; } ); chk( "A-double", toLM( *A - d ), [&]( ld x ) { return x - d; } );
    if ( toLM( *A ).v != a.v ) vm::fail( "operand-changed", "scalar operations changed %s", showL( a ).c_str() );
}
#if IN_PART( 5 )
GROUP( mixed_d, 400, 10000 ) { mixed<double, 2, 2>( g ); mixed<double, 1, 3>( g ); mixed<double, 4, 1>( g ); mixed<double, 3, 2>( g ); mixed<double, 1, 1>( g ); }
#endif
#if IN_PART( 5 )
GROUP( mixed_f, 400, 10000 ) { mixed<float, 2, 2>( g ); mixed<float, 2, 3>( g ); mixed<fx, 2, 2>( g ); mixed<fx, 3, 1>( g ); }
#endif
#if IN_PART( 5 )
GROUP( mixed_i, 400, 10000 ) { mixed<int, 2, 2>( g ); mixed<int, 1, 4>( g ); mixed<int, 3, 3>( g ); }
#endif

// sums, differences and multiples with infinities, NaNs, huge and tiny elements: element by element those of the element type
template< class T, int N, int M > void special( vm::Rng & g )
{
    using Mx = num::matrix<T, N, M>; using L = std::numeric_limits<T>;
    auto val = [&]() -> T { switch ( g.i( 0, 9 ) ) { case 0: return L::infinity(); case 1: return -L::infinity(); case 2: return L::quiet_NaN(); case 3: return L::max(); case 4: return -L::max(); case 5: return L::denorm_min(); case 6: return L::min(); case 7: return T( 0 ); default: return T( g.uni( -9, 9 ) ); } };
    Mx a( T( 0 ) ), b( T( 0 ) ); for ( auto & x : a ) x = val(); for ( auto & x : b ) x = g.p( .2 ) ? a( 0 ) : val(); T v = val();
    auto same = []( T x, T y ) { return x == y || ( x != x && y != y ); };
    auto chk = [&]( char const * what, Mx const & r, auto f )
    {
        vm::event( N * M );
        for ( int i = 0; i < N * M; ++i ) if ( !same( r( i ), f( i ) ) ) { vm::fail( vm::fmt( "special-%s", what ), "%s %dx%d: element %d of %s is %.17g, expected %.17g (elements %.17g and %.17g, scalar %.17g)", num_<T>::name(), N, M, i, what, double( r( i ) ), double( f( i ) ), double( a( i ) ), double( b( i ) ), double( v ) ); break; }
    };
    chk( "a+b", a + b, [&]( int i ) { return a( i ) + b( i ); } ); chk( "a-b", a - b, [&]( int i ) { return a( i ) - b( i ); } );
    chk( "a+a", a + a, [&]( int i ) { return a( i ) + a( i ); } ); chk( "a-a", a - a, [&]( int i ) { return a( i ) - a( i ); } );
    chk( "a+v", a + v, [&]( int i ) { return a( i ) + v; } ); chk( "v+a", v + a, [&]( int i ) { return a( i ) + v; } ); chk( "a-v", a - v, [&]( int i ) { return a( i ) - v; } );
    chk( "a*v", a * v, [&]( int i ) { return a( i ) * v; } ); chk( "v*a", v * a, [&]( int i ) { return a( i ) * v; } );
    Mx c = a; c = c - c; chk( "c=c-c", c, [&]( int i ) { return a( i ) - a( i ); } );
    uint64_t h = N; for ( auto x : a ) h = vm::hashd( h, double( x ) ); vm::distinct( h );
}
#if IN_PART( 5 )
GROUP( special_d, 1500, 40000 ) { special<double, 2, 2>( g ); special<double, 1, 3>( g ); special<double, 3, 1>( g ); special<double, 2, 3>( g ); }
GROUP( special_f, 1500, 40000 ) { special<float, 2, 2>( g ); special<float, 1, 4>( g ); special<float, 2, 1>( g ); special<float, 3, 3>( g ); }
#endif

// integer elements up to the ends of their range: every result that the element type can hold is exact
using wide = __int128;
template< class T > T edge( vm::Rng & g )
{
    const T lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
    switch ( g.i( 0, 5 ) ) { case 0: return lo; case 1: return hi; case 2: return T( lo + T( g.i( 0, 3 ) ) ); case 3: return T( hi - T( g.i( 0, 3 ) ) ); case 4: return T( g.i( 0, 5 ) - ( lo < 0 ? 2 : 0 ) ); default: return T( g.next() ); }
}
template< class T > bool holds( wide x ) { return x >= wide( std::numeric_limits<T>::min() ) && x <= wide( std::numeric_limits<T>::max() ); }
template< class T, int N, int M > void extreme( vm::Rng & g, char const * name )
{
    using Mx = num::matrix<T, N, M>;
    Mx a( T( 0 ) ), b( T( 0 ) ); const T v = edge<T>( g ); const char op = g.pick( { '+', '-', '*' } );
    auto calc = [&]( wide x, wide y ) { return op == '+' ? x + y : op == '-' ? x - y : x * y; };
    auto fit = [&]( T y ) -> T                                                  // a left operand whose result can be held
    {
        for ( int k = 0; k < 8; ++k ) { T x = edge<T>( g ); if ( holds<T>( calc( x, y ) ) ) return x; }
        T w = edge<T>( g ); wide x = op == '+' ? wide( w ) - y : op == '-' ? wide( w ) + y : y ? wide( w ) / y : wide( w );
        return holds<T>( x ) && holds<T>( calc( x, y ) ) ? T( x ) : holds<T>( calc( 0, y ) ) ? T( 0 ) : y;
    };
    auto bad = [&]( char const * what, int i, T x, T y, T got ) { vm::fail( vm::fmt( "extreme-%s%c", what, op ), "%s %dx%d, %s: element %d: %lld %c %lld gives %lld", name, N, M, what, i, (long long)x, op, (long long)y, (long long)got ); };
    // with a scalar
    for ( auto & x : a ) x = fit( v );
    auto judge1 = [&]( char const * what, auto const & r, bool right ) { for ( int i = 0; i < N * M; ++i ) if ( wide( T( r( i ) ) ) != ( right ? calc( a( i ), v ) : calc( v, a( i ) ) ) ) { bad( what, i, right ? a( i ) : v, right ? v : a( i ), T( r( i ) ) ); return; } };
    bool all = true; for ( auto x : a ) all = all && holds<T>( calc( x, v ) );
    if ( all )
    {
        if constexpr( N * M > 1 )
        {
            if ( op == '+' ) { judge1( "scalar", a + v, true ); judge1( "scalar", v + a, false ); } else if ( op == '-' ) judge1( "scalar", a - v, true ); else { judge1( "scalar", a * v, true ); judge1( "scalar", v * a, false ); }
        }
        else { T got = T( op == '+' ? a + v : op == '-' ? a - v : a * v ); if ( wide( got ) != calc( a( 0 ), v ) ) bad( "1x1", 0, a( 0 ), v, got ); }
        vm::event( N * M );
    }
    // two matrices
    if ( N * M == 1 ) ; else if ( op != '*' )
    {
        for ( int i = 0; i < N * M; ++i ) { b( i ) = edge<T>( g ); a( i ) = fit( b( i ) ); if ( !holds<T>( calc( a( i ), b( i ) ) ) ) a( i ) = b( i ) = 0; }
        Mx r = a; if constexpr( N * M > 1 ) { if ( op == '+' ) r = a + b; else r = a - b; }
        for ( int i = 0; i < N * M; ++i ) if ( wide( r( i ) ) != calc( a( i ), b( i ) ) ) { bad( "matrix", i, a( i ), b( i ), r( i ) ); break; }
        vm::event( N * M );
    }
    else if constexpr( N == M && N > 1 )
    {
        for ( auto & x : a ) x = edge<T>( g );
        auto e = num::eye<T, N>(); Mx l = e * a, r = a * e;
        for ( int i = 0; i < N * M; ++i ) if ( l( i ) != a( i ) || r( i ) != a( i ) ) { bad( "identity", i, a( i ), 1, l( i ) != a( i ) ? l( i ) : r( i ) ); break; }
        vm::event( N * M );
    }
    uint64_t h = op; for ( auto x : a ) h = h * 1099511628211ull ^ uint64_t( x ); vm::distinct( h );
}
template< class T > void extremes( vm::Rng & g, char const * name ) { extreme<T, 1, 1>( g, name ); extreme<T, 2, 2>( g, name ); extreme<T, 1, 3>( g, name ); extreme<T, 3, 1>( g, name ); extreme<T, 2, 3>( g, name ); extreme<T, 3, 3>( g, name ); }
#if IN_PART( 5 )
GROUP( extreme_s, 800, 20000 ) { extremes<int8_t>( g, "int8" ); extremes<int16_t>( g, "int16" ); extremes<int32_t>( g, "int32" ); extremes<int64_t>( g, "int64" ); }
#endif
#if IN_PART( 5 )
GROUP( extreme_u, 400, 10000 ) { extremes<uint8_t>( g, "uint8" ); extremes<uint16_t>( g, "uint16" ); extremes<uint32_t>( g, "uint32" ); }
#endif
#if IN_PART( 0 )
VMON_MAIN
#endif
