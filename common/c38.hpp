// The same computations for the device and the desktop: raw words in, raw words out.
#ifndef C38_HPP
#define C38_HPP
#include "num/fixed-point.hpp"
#include "num/matrix.hpp"
#include "dsp/kalman.hpp"
#include <stdint.h>
#include <string.h>
namespace c38 {
template< class T > struct conv { static T get( int32_t v ) { return T( v ); } static int32_t put( T v ) { return int32_t( v ); } };
template<> struct conv<float> { static float get( int32_t v ) { float f; memcpy( &f, &v, 4 ); return f; } static int32_t put( float f ) { int32_t v; memcpy( &v, &f, 4 ); return v; } };
template<> struct conv<double> { static double get( int32_t v ) { return double( conv<float>::get( v ) ); } static int32_t put( double f ) { return conv<float>::put( float( f ) ); } };
template< class R, int I, int F > struct conv<num::fixed_point<R, I, F>> { using fp = num::fixed_point<R, I, F>; static fp get( int32_t v ) { return num::from_rep<fp>()( R( v ) ); } static int32_t put( fp v ) { return int32_t( num::to_rep<fp>()( v ) ); } };
template< class T > T get( int32_t v ) { return conv<T>::get( v ); }
template< class T > int32_t put( T v ) { return conv<T>::put( v ); }

enum { ADD, SUB, MUL, DIV, NEG, CMP, AS8, AS16, AS32, ASF, ASD, FROM8, FROM16, FROM32, FROMF, FROMD, CHAIN, LIMITS, MIXI, MIXD, NSCALAR };
template< class FP > void scalar( uint8_t op, int32_t const * in, int32_t * out )
{
    using R = typename FP::rep; FP a = get<FP>( in[0] ), b = get<FP>( in[1] ), c = get<FP>( in[2] );
    switch ( op )
    {
        case ADD: out[0] = put( a + b ); break; case SUB: out[0] = put( a - b ); break; case MUL: out[0] = put( a * b ); break; case DIV: out[0] = put( a / b ); break; case NEG: out[0] = put( FP( -a ) ); out[1] = put( FP( +a ) ); break;
        case CMP: out[0] = ( a == b ) | ( a != b ) << 1 | ( a < b ) << 2 | ( a <= b ) << 3 | ( a > b ) << 4 | ( a >= b ) << 5; break;
        case AS8: out[0] = a.template as<int8_t>(); break; case AS16: out[0] = a.template as<int16_t>(); break; case AS32: out[0] = a.template as<int32_t>(); break;
        case ASF: out[0] = put( a.template as<float>() ); break; case ASD: out[0] = put( float( a.as_double() ) ); break;
        case FROM8: out[0] = put( FP( int8_t( in[0] ) ) ); break; case FROM16: out[0] = put( FP( int16_t( in[0] ) ) ); break; case FROM32: out[0] = put( FP( int32_t( in[0] ) ) ); break;
        case FROMF: out[0] = put( FP( get<float>( in[0] ) ) ); break; case FROMD: out[0] = put( FP( get<double>( in[0] ) ) ); break;
        case CHAIN: { FP s = a; s += b; out[0] = put( s ); s *= c; out[1] = put( s ); s -= b; out[2] = put( s ); s /= c; out[3] = put( s ); break; }
        case LIMITS: out[0] = put( a.min() ); out[1] = put( a.max() ); out[2] = FP::digits; out[3] = FP::integer_digits; out[4] = FP::fractional_digits; break;
        case MIXI: out[0] = put( FP( a * 1 ) ); out[1] = put( FP( 0 + a ) ); out[2] = ( a < 0 ) | ( 0 >= a ) << 1; out[3] = put( FP( a - 0 ) ); break;
        case MIXD: out[0] = put( FP( a * .5 ) ); out[1] = put( FP( .25f * a ) ); out[2] = ( a < .5 ) | ( -.5 >= a ) << 1; break;
    }
    (void) sizeof( R );
}
template< class T, int N, int M > num::matrix<T, N, M> mat( int32_t const * in ) { num::matrix<T, N, M> m; for ( int i = 0; i < N * M; ++i ) m.at( i ) = get<T>( in[i] ); return m; }
template< class T, int N, int M > void outm( num::matrix<T, N, M> const & m, int32_t * out ) { for ( int i = 0; i < N * M; ++i ) out[i] = put( T( m.at( i ) ) ); }
enum { MADD, MSUB, MMUL, MSCALE, MTRANS, MINV, MROW, MCOL, MDOT, MOUTER, MLIST, MEYE, MCHAIN, NMATRIX };
template< class T, bool Inv > void matrices( uint8_t op, int32_t const * in, int32_t * out )
{
    using M2 = num::matrix<T, 2, 2>; using M3 = num::matrix<T, 3, 3>;
    switch ( op )
    {
        case MADD: outm( M3( mat<T, 3, 3>( in ) + mat<T, 3, 3>( in + 9 ) ), out ); outm( num::matrix<T, 2, 3>( mat<T, 2, 3>( in ) + mat<T, 2, 3>( in + 9 ) ), out + 9 ); break;
        case MSUB: outm( M3( mat<T, 3, 3>( in ) - mat<T, 3, 3>( in + 9 ) ), out ); outm( M3( mat<T, 3, 3>( in ) - get<T>( in[9] ) ), out + 9 ); break;
        case MMUL: outm( M3( mat<T, 3, 3>( in ) * mat<T, 3, 3>( in + 9 ) ), out ); outm( M2( mat<T, 2, 2>( in ) * mat<T, 2, 2>( in + 9 ) ), out + 9 ); break;
        case MSCALE: outm( num::matrix<T, 2, 3>( get<T>( in[9] ) * mat<T, 2, 3>( in ) ), out ); outm( num::matrix<T, 3, 2>( mat<T, 3, 2>( in ) * get<T>( in[10] ) ), out + 6 ); outm( M2( mat<T, 2, 2>( in ) + get<T>( in[11] ) ), out + 12 ); break;
        case MTRANS: outm( M2( transposed( mat<T, 2, 2>( in ) ) ), out ); outm( num::rowvec<T, 3>( transposed( mat<T, 3, 1>( in ) ) ), out + 4 ); outm( num::colvec<T, 4>( transposed( mat<T, 1, 4>( in ) ) ), out + 7 ); break;
        case MINV: if constexpr ( Inv ) outm( M2( inverted( mat<T, 2, 2>( in ) ) ), out ); break;
        case MROW: outm( num::rowvec<T, 2>( mat<T, 1, 3>( in ) * mat<T, 3, 2>( in + 3 ) ), out ); break;
        case MCOL: outm( num::colvec<T, 3>( mat<T, 3, 2>( in ) * mat<T, 2, 1>( in + 6 ) ), out ); break;
        case MDOT: out[0] = put( T( mat<T, 1, 4>( in ) * mat<T, 4, 1>( in + 4 ) ) ); break;
        case MOUTER: outm( M3( mat<T, 3, 1>( in ) * mat<T, 1, 3>( in + 3 ) ), out ); break;
        case MLIST: { M3 m = { get<T>( in[0] ), get<T>( in[1] ), get<T>( in[2] ), get<T>( in[3] ) }; outm( m, out ); M2 f( get<T>( in[4] ) ); outm( f, out + 9 ); out[13] = m.rows() * 100 + m.columns() * 10 + m.size(); out[14] = put( T( m( 1, 0 ) ) ); M2 z; outm( num::matrix<T, 2, 2>( T( 0 ) ), out + 15 ); (void) z; break; }
        case MEYE: outm( num::eye<T, 3>(), out ); outm( num::eye<T, 2>(), out + 9 ); break;
        case MCHAIN: { M2 a = mat<T, 2, 2>( in ), b = mat<T, 2, 2>( in + 4 ); M2 c = a * b - transposed( b ) * a + num::eye<T, 2>(); outm( c, out ); a = c; outm( M2( a + b ), out + 4 ); out[8] = put( T( transposed( mat<T, 2, 1>( in ) ) * ( b * mat<T, 2, 1>( in + 2 ) ) ) ); break; }
    }
}
template< class T, int M, int U > void kalman( uint8_t n, int32_t const * in, int32_t * out )
{
    using K = num::kalman<T, 2, M, U>; int32_t const * p = in; auto next = [&]( int k ) { int32_t const * q = p; p += k; return q; };
    T dt = get<T>( *next( 1 ) ); auto A = mat<T, 2, 2>( next( 4 ) ); auto B = mat<T, 2, U>( next( 2 * U ) ); auto H = mat<T, M, 2>( next( 2 * M ) ); auto Q = mat<T, 2, 2>( next( 4 ) ); auto R = mat<T, M, M>( next( M * M ) ); auto P = mat<T, 2, 2>( next( 4 ) ); auto x = mat<T, 2, 1>( next( 2 ) );
    K k( dt, A, B, H, Q, R, P, x );
    for ( uint8_t i = 0; i < n; ++i ) { auto u = mat<T, U, 1>( next( U ) ); auto z = mat<T, M, 1>( next( M ) ); k.update( u, z ); }
    outm( k.system_state(), out ); outm( k.estimation_error_covariance(), out + 2 ); outm( k.kalman_gain(), out + 6 ); out[10] = put( T( k.time() ) );
}
}
#endif
