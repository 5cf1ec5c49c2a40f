// C10: storage layout, element access, construction and bounds. Matrices live in exactly sized heap
// blocks (ASan redzones on both sides) pre-filled with a poison pattern; every operator over every
// accepted shape runs on such blocks. Valgrind decides reads of uninitialised elements (thorough).
#include "mx.hpp"
#include <array>
#include <new>

template< class Mx > struct Slot
{
    unsigned char * raw; Mx * m;
    template< class... A > Slot( int fill, A &&... a ) : raw( new unsigned char[ sizeof( Mx ) ] ) { memset( raw, fill, sizeof( Mx ) ); asm volatile( "" : "+r"( raw ) : : "memory" ); m = new( raw ) Mx( std::forward<A>( a )... ); }
    template< class T > Slot( int fill, std::initializer_list<T> il ) : raw( new unsigned char[ sizeof( Mx ) ] ) { memset( raw, fill, sizeof( Mx ) ); asm volatile( "" : "+r"( raw ) : : "memory" ); m = new( raw ) Mx( il ); }
    Slot( Slot const & ) = delete;
    ~Slot() { m->~Mx(); delete[] raw; }
};
template< class T, int N, int M > void access( vm::Rng & g )
{
    using Mx = num::matrix<T, N, M>;
    std::array<T, N * M> ref;
    for ( auto & x : ref ) x = num_<T>::make( g );
    Slot<Mx> s( int( g.i( 0, 255 ) ), T( 0 ) ); Mx & m = *s.m; Mx const & c = m;
    auto bad = [&]( char const * what ) { std::string r; for ( auto & x : ref ) r += vm::fmt( " %.9g", todbl( x ) ); vm::fail( what, "%s %dx%d: expected%s, holds %s", num_<T>::name(), N, M, r.c_str(), showL( toLM( m ) ).c_str() ); };
    if ( c.rows() != N || c.columns() != M || c.size() != N * M || m.end() - m.begin() != N * M || c.end() - c.begin() != N * M ) vm::fail( "shape", "%dx%d reports %dx%d size %d", N, M, c.rows(), c.columns(), c.size() );
    // write through one path ...
    switch ( g.i( 0, 6 ) )
    {
        case 0: for ( int i = 0; i < N; ++i ) for ( int j = 0; j < M; ++j ) m( i, j ) = ref[ i * M + j ]; break;
        case 1: for ( int i = N * M - 1; i >= 0; --i ) m( i ) = ref[i]; break;
        case 2: for ( int i = 0; i < N * M; ++i ) m[i] = ref[i]; break;
        case 3: for ( int i = 0; i < N * M; ++i ) m.at( i ) = ref[i]; break;
        case 4: for ( int j = 0; j < M; ++j ) for ( int i = 0; i < N; ++i ) m.at( i, j ) = ref[ i * M + j ]; break;
        case 5: { int k = 0; for ( auto & x : m ) x = ref[k++]; } break;
        default: std20::copy( ref.begin(), ref.end(), m.begin() );
    }
    // ... and read through all
    auto same = [&]( Mx const & q ) { for ( int i = 0; i < N; ++i ) for ( int j = 0; j < M; ++j ) if ( !( q( i, j ) == ref[ i * M + j ] ) ) return false; return true; };
    if ( !same( m ) ) bad( "row-column" );
    for ( int i = 0; i < N; ++i ) for ( int j = 0; j < M; ++j )
    {
        int k = i * M + j;
        if ( !( m( i, j ) == ref[k] && c( i, j ) == ref[k] && m.at( i, j ) == ref[k] && c.at( i, j ) == ref[k] ) ) bad( "row-column" );
        if ( !( m( k ) == ref[k] && c( k ) == ref[k] && m.at( k ) == ref[k] && c.at( k ) == ref[k] && m[k] == ref[k] && c[k] == ref[k] ) ) bad( "flat-index" );
        if ( !( *( m.begin() + k ) == ref[k] && *( c.begin() + k ) == ref[k] ) ) bad( "iteration" );
        if ( &m( i, j ) != m.begin() + k || &m.at( k ) != &m( i, j ) || &m[k] != &m( k ) ) bad( "aliasing" );
    }
    if ( !std20::equal( ref.begin(), ref.end(), c.begin() ) ) bad( "iteration" );
    { int k = 0; for ( auto x : c ) if ( !( x == ref[k++] ) ) bad( "iteration" ); if ( k != N * M ) bad( "iteration" ); }
    // one element changes, the others stay
    int k = int( g.i( 0, N * M - 1 ) ); T v = num_<T>::make( g );
    switch ( g.i( 0, 4 ) ) { case 0: m( k / M, k % M ) = v; break; case 1: m( k ) = v; break; case 2: m[k] = v; break; case 3: m.at( k ) = v; break; default: m.at( k / M, k % M ) = v; }
    ref[k] = v;
    if ( !same( m ) ) bad( "single-write" );
    // copies, assignment and self-assignment, independence
    {
        Slot<Mx> b( int( g.i( 0, 255 ) ), c ), d( int( g.i( 0, 255 ) ), T( 7 ) ), e( int( g.i( 0, 255 ) ), std20::move( *b.m ) );
        if ( !same( *e.m ) ) bad( "copy-move" );
        *d.m = c; if ( !same( *d.m ) ) bad( "assignment" );
        Mx & alias = *d.m; *d.m = alias; if ( !same( *d.m ) ) bad( "self-assignment" );
        ( *d.m )( k ) = T( 3 ); ( *e.m )( k ) = T( 4 ); if ( !same( m ) ) bad( "copies-share" );
        Slot<Mx> f( int( g.i( 0, 255 ) ), T( 1 ) ); *f.m = std20::move( *d.m ); ref[k] = T( 3 ); if ( !same( *f.m ) ) bad( "move-assignment" );
    }
    vm::event( N * M ); uint64_t h = N * 10 + M; for ( auto & x : ref ) h = vm::hashd( h, todbl( x ) ); vm::distinct( h );
    vm::sample( "%s %s", num_<T>::name(), showL( toLM( m ) ).c_str() );
}
template< class Mx, class T, int... I > Slot<Mx> * listed( int fill, T const * v, std::integer_sequence<int, I...> ) { return new Slot<Mx>( fill, std::initializer_list<T>{ v[I]... } ); }
template< class T, int N, int M, int K > void construct_k( vm::Rng & g )
{
    using Mx = num::matrix<T, N, M>;
    if constexpr( K == 0 || K == 1 || K == N || K == M || K == N * M - 1 || K == N * M )
    {
        T v[26]; for ( auto & x : v ) x = num_<T>::make( g );
        for ( int fill : { 0x00, 0xA5, 0xFF } )
        {
            std::unique_ptr<Slot<Mx>> s( listed<Mx>( fill, v, std::make_integer_sequence<int, K>() ) );
            for ( int i = 0; i < N * M; ++i ) if ( !( ( *s->m )( i ) == ( i < K ? v[i] : T( 0 ) ) ) )
                vm::fail( K < N * M ? "short-list" : "full-list", "%s %dx%d from a list of %d (memory filled with %02x) holds %s", num_<T>::name(), N, M, K, fill, showL( toLM( *s->m ) ).c_str() );
            Slot<Mx> w( fill, v[0] );
            for ( int i = 0; i < N * M; ++i ) if ( !( ( *w.m )( i ) == v[0] ) ) vm::fail( "from-value", "%s %dx%d from %.9g (memory filled with %02x) holds %s", num_<T>::name(), N, M, todbl( v[0] ), fill, showL( toLM( *w.m ) ).c_str() );
            vm::event( 2 );
        }
    }
}
template< class T, int N, int M, int... K > void construct_( vm::Rng & g, std::integer_sequence<int, K...> ) { ( construct_k<T, N, M, K>( g ), ... ); }
template< class T, int N, int M > void shape( vm::Rng & g ) { access<T, N, M>( g ); if constexpr( N * M <= 9 || N == M ) construct_<T, N, M>( g, std::make_integer_sequence<int, N * M + 1>() ); }
template< class T, int D, int... K > void shapes( vm::Rng & g, std::integer_sequence<int, K...> ) { ( shape<T, K / D + 1, K % D + 1>( g ), ... ); }
using fx = num::fixed_point<int16_t, 7, 8>;
#if IN_PART( 0 )
GROUP( store_d, 60, 2000 ) { shapes<double, 4>( g, std::make_integer_sequence<int, 16>() ); }
#endif
#if IN_PART( 4 )
GROUP( store_i, 60, 2000 ) { shapes<int, 5>( g, std::make_integer_sequence<int, 25>() ); }
#endif
#if IN_PART( 0 )
GROUP( store_x, 60, 2000 ) { shapes<fx, 3>( g, std::make_integer_sequence<int, 9>() ); }
#endif
// every operator over every accepted shape, on exactly sized heap blocks
#if IN_PART( 1 )
GROUP( ops_d, 25, 700 ) { sweep<double, many>( g ); }
#endif
#if IN_PART( 2 )
GROUP( ops_i, 25, 700 ) { sweep<int, some>( g ); }
#endif
#if IN_PART( 3 )
GROUP( ops_x, 25, 700 ) { sweep<num::fixed_point<int32_t, 16, 15>, some>( g ); }
#endif
// results of transposition, inversion and identity are complete, whatever the stack held before
template< int N > void unary( vm::Rng & g )
{
    auto r = heaped<num::rowvec<double, N>>( g ); auto c = heaped<num::colvec<double, N>>( g );
    volatile unsigned char junk[512]; for ( int i = 0; i < 512; ++i ) junk[i] = (unsigned char)g.next();
    if constexpr( N > 1 )
    {
        std::unique_ptr<num::colvec<double, N>> tr( new num::colvec<double, N>( transposed( *r ) ) ); std::unique_ptr<num::rowvec<double, N>> tc( new num::rowvec<double, N>( transposed( *c ) ) );
        for ( int i = 0; i < N; ++i ) if ( (*tr)( i ) != (*r)( i ) || (*tc)( i ) != (*c)( i ) ) vm::fail( "transposed-elements", "transposing %s or %s lost elements", showL( toLM( *r ) ).c_str(), showL( toLM( *c ) ).c_str() );
    }
    auto e = std::make_unique<num::matrix<double, N, N>>( num::eye<double, N>() );
    for ( int i = 0; i < N * N; ++i ) if ( (*e)( i ) != ( i % ( N + 1 ) == 0 ) ) vm::fail( "eye-elements", "eye<%d> holds %s", N, showL( toLM( *e ) ).c_str() );
    if constexpr( N == 2 )
    {
        auto m = heaped<num::matrix<double, 2, 2>>( g ); LM a = toLM( *m );
        if ( std::fabs( a( 0, 0 ) * a( 1, 1 ) - a( 0, 1 ) * a( 1, 0 ) ) > 1e-6L ) { auto i1 = std::make_unique<num::matrix<double, 2, 2>>( inverted( *m ) ); for ( auto x : *i1 ) if ( !std::isfinite( x ) ) vm::fail( "inverse-elements", "inverting %s gives %s", showL( a ).c_str(), showL( toLM( *i1 ) ).c_str() ); }
        auto t = std::make_unique<num::matrix<double, 2, 2>>( transposed( *m ) ); if ( (*t)( 0, 1 ) != (*m)( 1, 0 ) || (*t)( 1, 0 ) != (*m)( 0, 1 ) || (*t)( 0, 0 ) != (*m)( 0, 0 ) || (*t)( 1, 1 ) != (*m)( 1, 1 ) ) vm::fail( "transposed-elements", "transposing %s gives %s", showL( a ).c_str(), showL( toLM( *t ) ).c_str() );
    }
    vm::event();
}
// an element receives the value stored in it, bit for bit: minus zero over zero, infinities, NaN
template< class T > T odd( vm::Rng & g ) { switch ( g.i( 0, 6 ) ) { case 0: return T( 0 ); case 1: return T( -0.0 ); case 2: return std::numeric_limits<T>::infinity(); case 3: return -std::numeric_limits<T>::infinity(); case 4: return std::numeric_limits<T>::quiet_NaN(); case 5: return std::numeric_limits<T>::denorm_min(); default: return num_<T>::make( g ); } }
template< class T, int N, int M > void bits( vm::Rng & g )
{
    using Mx = num::matrix<T, N, M>; std::array<T, N * M> ref; Slot<Mx> s( int( g.i( 0, 255 ) ), g.p( .5 ) ? T( 0 ) : odd<T>( g ) ); Mx & m = *s.m;
    for ( auto & x : ref ) x = odd<T>( g );
    if ( g.p( .5 ) ) for ( int i = 0; i < N * M; ++i ) m( i ) = ref[i] == 0 ? -ref[i] : odd<T>( g );   // what was there compares equal to what comes
    auto same = [&]( Mx const & q ) { for ( int i = 0; i < N * M; ++i ) { T v = q( i ), w = ref[i]; if ( std::isnan( w ) ? !std::isnan( v ) : v != w || std::signbit( v ) != std::signbit( w ) ) return false; } return true; };
    auto bad = [&]( char const * what ) { std::string r; for ( auto x : ref ) r += vm::fmt( " %.9g", double( x ) ); vm::fail( what, "%s %dx%d: expected%s, holds %s", num_<T>::name(), N, M, r.c_str(), showL( toLM( m ) ).c_str() ); };
    int k = int( g.i( 0, 4 ) );
    for ( int i = 0; i < N * M; ++i ) switch ( k ) { case 0: m( i / M, i % M ) = ref[i]; break; case 1: m( i ) = ref[i]; break; case 2: m[i] = ref[i]; break; case 3: m.at( i ) = ref[i]; break; default: m.at( i / M, i % M ) = ref[i]; }
    if ( !same( m ) ) bad( "write-bits" );
    Slot<Mx> c( int( g.i( 0, 255 ) ), m ), z( int( g.i( 0, 255 ) ), g.p( .5 ) ? T( 0 ) : T( -0.0 ) ), y( int( g.i( 0, 255 ) ), g.p( .5 ) ? T( 0 ) : T( -0.0 ) ); if ( !same( *c.m ) ) bad( "copy-bits" );
    *z.m = m; if ( !same( *z.m ) ) bad( "assignment-bits" ); *y.m = std20::move( *z.m ); if ( !same( *y.m ) ) bad( "move-bits" ); Slot<Mx> v( int( g.i( 0, 255 ) ), std20::move( *y.m ) ); if ( !same( *v.m ) ) bad( "move-bits" );
    { Slot<Mx> w( 0, g.p( .5 ) ? T( 0 ) : T( -0.0 ) ); std20::swap( *v.m, *w.m ); if ( !same( *w.m ) ) bad( "swap-bits" ); }
    T e = odd<T>( g ); Slot<Mx> f( int( g.i( 0, 255 ) ), e ); for ( auto & x : ref ) x = e; if ( !same( *f.m ) ) bad( "from-value-bits" );
    vm::event( 8 );
}
#if IN_PART( 0 )
GROUP( bitwise, 500, 20000 ) { bits<double, 2, 2>( g ); bits<float, 2, 2>( g ); bits<double, 1, 2>( g ); bits<double, 2, 1>( g ); bits<float, 3, 1>( g ); bits<double, 3, 4>( g ); bits<float, 1, 1>( g ); }
GROUP( unary1, 200, 5000 ) { unary<1>( g ); unary<2>( g ); unary<3>( g ); unary<4>( g ); unary<5>( g ); unary<6>( g ); }
#endif
// more elements than a byte or a small counter can index
template< class T, int N, int M > void large( vm::Rng & g )
{
    using Mx = num::matrix<T, N, M>;
    access<T, N, M>( g );
    Slot<Mx> a( int( g.i( 0, 255 ) ), num_<T>::make( g ) ), b( int( g.i( 0, 255 ) ), T( 0 ) ); Mx & m = *a.m; Mx const & c = *a.m;
    T v = m( 0 ); for ( int i = 0; i < N * M; ++i ) if ( !( m( i ) == v ) ) { vm::fail( "from-value", "%s %dx%d from one value: element %d differs", num_<T>::name(), N, M, i ); break; }
    for ( auto & x : *b.m ) x = num_<T>::make( g );
    const T two = T( 2 );
    Slot<Mx> sum( 0x5a, c + *b.m ), dif( 0xa5, c - *b.m ), pl( 1, *b.m + two ), mi( 2, *b.m - two ), ti( 3, *b.m * two );
    for ( int i = 0; i < N * M; ++i )
    {
        T x = ( *b.m )( i );
        if ( !( ( *sum.m )( i ) == v + x && ( *dif.m )( i ) == v - x && ( *pl.m )( i ) == x + two && ( *mi.m )( i ) == x - two && ( *ti.m )( i ) == x * two ) ) { vm::fail( "large-elements", "%s %dx%d: element %d of a sum, difference or scaling is wrong", num_<T>::name(), N, M, i ); break; }
    }
    vm::event( 5 * N * M );
}
#if IN_PART( 4 )
GROUP( large_i, 4, 100 ) { large<int, 16, 16>( g ); large<int, 1, 300>( g ); large<int, 260, 1>( g ); large<int, 8, 17>( g ); large<int, 12, 12>( g ); }
#endif
#if IN_PART( 4 )
GROUP( large_d, 3, 60 ) { large<double, 20, 20>( g ); large<double, 257, 1>( g ); large<double, 3, 90>( g ); }
#endif
template< int N > void large_eye( vm::Rng & )
{
    auto e = std::make_unique<num::matrix<int, N, N>>( num::eye<int, N>() ); for ( int i = 0; i < N * N; ++i ) if ( (*e)( i ) != ( i % ( N + 1 ) == 0 ) ) { vm::fail( "eye-elements", "eye<%d>: element %d is %d", N, i, (*e)( i ) ); break; }
    std::unique_ptr<num::rowvec<int, N * N>> r( new num::rowvec<int, N * N>( 0 ) ); for ( int i = 0; i < N * N; ++i ) (*r)( i ) = i; auto t = std::make_unique<num::colvec<int, N * N>>( transposed( *r ) ); for ( int i = 0; i < N * N; ++i ) if ( (*t)( i ) != i ) { vm::fail( "transposed-elements", "transposing a row of %d: element %d is %d", N * N, i, (*t)( i ) ); break; }
    vm::event();
}
#if IN_PART( 4 )
GROUP( large_u, 2, 2 ) { large_eye<12>( g ); large_eye<16>( g ); large_eye<17>( g ); }
#endif
#if IN_PART( 0 )
VMON_MAIN
#endif
