// Dense long double linear algebra used by the oracles (written independently of the library).
#ifndef LD_HPP
#define LD_HPP
#include <cmath>
#include <vector>
typedef long double ld;
struct LM
{
    int r, c; std::vector<ld> v;
    LM( int r_ = 0, int c_ = 0 ) : r( r_ ), c( c_ ), v( size_t( r_ * c_ ), 0.0L ) {}
    ld & operator()( int i, int j ) { return v[ size_t( i * c + j ) ]; }
    ld operator()( int i, int j ) const { return v[ size_t( i * c + j ) ]; }
    LM t() const { LM m( c, r ); for ( int i = 0; i < r; ++i ) for ( int j = 0; j < c; ++j ) m( j, i ) = ( *this )( i, j ); return m; }
    LM abs() const { LM m( *this ); for ( auto & x : m.v ) x = std::fabs( x ); return m; }
    ld norm() const { ld n = 0; for ( auto x : v ) n = std::max( n, std::fabs( x ) ); return n; }
    static LM I( int n ) { LM m( n, n ); for ( int i = 0; i < n; ++i ) m( i, i ) = 1; return m; }
};
inline LM mul( LM const & a, LM const & b )
{
    LM m( a.r, b.c );
    for ( int i = 0; i < a.r; ++i ) for ( int j = 0; j < b.c; ++j ) { ld s = 0; for ( int k = 0; k < a.c; ++k ) s += a( i, k ) * b( k, j ); m( i, j ) = s; }
    return m;
}
inline LM add( LM a, LM const & b, ld f = 1 ) { for ( size_t i = 0; i < a.v.size(); ++i ) a.v[i] += f * b.v[i]; return a; }
// solve A X = B by Gaussian elimination with pivoting; returns false if singular
inline bool lsolve( LM a, LM b, LM & x )
{
    int n = a.r;
    for ( int k = 0; k < n; ++k )
    {
        int p = k; for ( int i = k + 1; i < n; ++i ) if ( std::fabs( a( i, k ) ) > std::fabs( a( p, k ) ) ) p = i;
        if ( a( p, k ) == 0 ) return false;
        for ( int j = 0; j < n; ++j ) std::swap( a( k, j ), a( p, j ) );
        for ( int j = 0; j < b.c; ++j ) std::swap( b( k, j ), b( p, j ) );
        for ( int i = 0; i < n; ++i ) if ( i != k )
        {
            ld f = a( i, k ) / a( k, k );
            for ( int j = k; j < n; ++j ) a( i, j ) -= f * a( k, j );
            for ( int j = 0; j < b.c; ++j ) b( i, j ) -= f * b( k, j );
        }
    }
    x = b;
    for ( int i = 0; i < n; ++i ) for ( int j = 0; j < b.c; ++j ) x( i, j ) = b( i, j ) / a( i, i );
    return true;
}
inline LM linv( LM const & a ) { LM x; lsolve( a, LM::I( a.r ), x ); return x; }
inline ld mineig2( LM const & m ) // symmetric 2x2
{
    ld a = m( 0, 0 ), d = m( 1, 1 ), b = ( m( 0, 1 ) + m( 1, 0 ) ) / 2;
    return ( a + d ) / 2 - std::sqrt( ( a - d ) * ( a - d ) / 4 + b * b );
}
#endif
