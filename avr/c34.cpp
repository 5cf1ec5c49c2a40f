#include "fw.hpp"
using namespace mcu; using namespace mcu::atmega328;
struct s3 { u8 a, b, c; }; struct s6 { u16 a, b, c; };
template< class T > T make( u8 p ) { T v; u8 * q = (u8 *) &v; for ( u8 i = 0; i < sizeof( T ); ++i ) q[ i ] = p; return v; }
// the handler reads the shared variable of the type under test and stores the next value, byte by byte: 'mode' selects which
GV volatile u8 mode, next, seen[8];
GV u16 g16; GV u32 g32; GV uint64_t g64; GV s3 g3; GV s6 g6; GV float gf; GV int gi; GV long gl; GV u16 ga[4];
GV volatile u16 v16; GV volatile u32 v32; GV volatile uint64_t v64; GV volatile int vi; GV u8 g8; GV volatile u8 v8; GV volatile bool vb; GV u8 out[8];
template< class T > static void swap_bytes( T & x ) { volatile u8 * p = (volatile u8 *) &x; for ( u8 i = 0; i < sizeof( T ); ++i ) { seen[ i ] = p[ i ]; p[ i ] = next; } }
ISR( TIMER0_COMPA_vect )
{
    core::scoped_sreg _;
    switch ( mode )
    {
        case 0: swap_bytes( g16 ); break; case 1: swap_bytes( g32 ); break; case 2: swap_bytes( g64 ); break; case 3: swap_bytes( g3 ); break; case 4: swap_bytes( g6 ); break; case 5: swap_bytes( gf ); break; case 6: swap_bytes( gi ); break; case 7: swap_bytes( gl ); break;
        case 8: swap_bytes( v16 ); break; case 9: swap_bytes( v32 ); break; case 10: swap_bytes( v64 ); break; case 11: swap_bytes( vi ); break; case 12: swap_bytes( ga[2] ); break;
        case 20: { u16 x = OCR1A; seen[0] = x; seen[1] = x >> 8; OCR1A = next * 257u; break; }      // 16-bit registers share one temporary byte
        case 21: { u16 x = TCNT1; seen[0] = x; seen[1] = x >> 8; break; }
        case 22: { OCR1B = next * 257u; break; }
        case 23: { u16 x = ICR1; seen[0] = x; seen[1] = x >> 8; break; }
        case 24: { u16 x = TCNT1; seen[0] = x; seen[1] = x >> 8; TCNT1 = next * 257u; break; }
    }
    GPIOR0 = 1;
}
template< class T > static void give( T const & v ) { u8 const * p = (u8 const *) &v; for ( u8 i = 0; i < sizeof( T ); ++i ) out[ i ] = p[ i ]; }
template< class T > struct bare { using t = T; }; template< class T > struct bare<T volatile> { using t = T; };
#define VAR( n ) FN void rd_##n() { typename bare<decltype( n )>::t x = mcu::atomic( n ); GPIOR2 = 1; give( x ); } FN void wr_##n( u8 p ) { auto x = make<typename bare<decltype( n )>::t>( p ); GPIOR2 = 1; mcu::atomic( n, x ); GPIOR2 = 2; } \
    FN void rw_##n( u8 p ) { typename bare<decltype( n )>::t x = mcu::atomic( n ); mcu::atomic( n, make<typename bare<decltype( n )>::t>( p ) ); give( x ); }
VAR( g16 ) VAR( g32 ) VAR( g64 ) VAR( g3 ) VAR( g6 ) VAR( gf ) VAR( gi ) VAR( gl ) VAR( v16 ) VAR( v32 ) VAR( v64 ) VAR( vi )
FN void rd_ga() { u16 x = mcu::atomic( ga[2] ); give( x ); } FN void wr_ga( u8 p ) { mcu::atomic( ga[2], u16( p * 257u ) ); } FN void rw_ga( u8 p ) { u16 x = mcu::atomic( ga[2] ); mcu::atomic( ga[2], u16( p * 257u ) ); give( x ); }
FN void rd_ocr1a() { u16 x = mcu::atomic( OCR1A ); give( x ); } FN void wr_ocr1a( u8 p ) { mcu::atomic( OCR1A, u16( p * 257u ) ); } FN void wr_ocr1b( u8 p ) { mcu::atomic( OCR1B, u16( p * 257u ) ); } FN void rd_tcnt1() { u16 x = mcu::atomic( TCNT1 ); give( x ); } FN void wr_tcnt1( u8 p ) { mcu::atomic( TCNT1, u16( p * 257u ) ); } FN void rd_icr1() { u16 x = mcu::atomic( ICR1 ); give( x ); }
FN void wr_ocr1a16( u16 v ) { mcu::atomic( OCR1A, v ); }
FN void pwm( u16 v ) { tc1_pwm_on_a_pb1::write( v ); }
// values narrower or wider than the variable, signed and unsigned
#define MIX( n, t ) FN void mx_##n##_##t( t v ) { GPIOR2 = 1; mcu::atomic( n, v ); GPIOR2 = 2; }
using i8 = int8_t; using i16 = int16_t; using i32 = int32_t;
MIX( g16, u8 ) MIX( g16, i8 ) MIX( g16, u32 ) MIX( g32, u8 ) MIX( g32, i8 ) MIX( g32, u16 ) MIX( g32, i16 ) MIX( v16, u8 ) MIX( v32, u8 ) MIX( v32, i16 ) MIX( gi, u8 ) MIX( gi, i8 ) MIX( gl, i8 ) MIX( gl, u16 ) MIX( v64, u8 ) MIX( g64, i16 ) MIX( vi, i8 )
FN void mx_ocr1a_u8( u8 v ) { mcu::atomic( OCR1A, v ); } FN void mx_tcnt1_u8( u8 v ) { mcu::atomic( TCNT1, v ); } FN void mx_v8_u16( u16 v ) { mcu::atomic( v8, v ); } FN void mx_g8_u32( u32 v ) { mcu::atomic( g8, v ); }
// single bytes
FN u8 r8_g8() { return mcu::atomic( g8 ); } FN void w8_g8( u8 v ) { mcu::atomic( g8, v ); } FN u8 r8_v8() { return mcu::atomic( v8 ); } FN void w8_v8( u8 v ) { mcu::atomic( v8, v ); } FN u8 r8_vb() { return mcu::atomic( vb ); } FN void w8_vb( u8 v ) { mcu::atomic( vb, v != 0 ); }
FN u8 r8_ocr0a() { return mcu::atomic( OCR0A ); } FN void w8_ocr0a( u8 v ) { mcu::atomic( OCR0A, v ); }
// repeated access in a computation: every value must be whole, and the sequence the handler's
FN void many( u8 n ) { u8 bad = 0; for ( u8 i = 0; i < n; ++i ) { u32 x = mcu::atomic( v32 ); u8 const * p = (u8 const *) &x; if ( p[0] != p[1] || p[1] != p[2] || p[2] != p[3] ) ++bad; mcu::atomic( v32, u32( u8( p[0] + 1 ) ) * 0x01010101ul ); } out[0] = bad; }
// the same over variables that are not volatile: what keeps an access between switching interrupts off and on is the access function alone
#define LOOPS( n, T ) \
    FN void many_##n( u8 k ) { u8 bad = 0; for ( u8 i = 0; i < k; ++i ) { T x = mcu::atomic( n ); u8 const * p = (u8 const *) &x; for ( u8 j = 1; j < sizeof( T ); ++j ) if ( p[j] != p[0] ) ++bad; mcu::atomic( n, make<T>( u8( p[0] + 1 ) ) ); } out[0] = bad; } \
    FN void reads_##n( u8 k ) { u8 bad = 0; for ( u8 i = 0; i < k; ++i ) { T x = mcu::atomic( n ), y = mcu::atomic( n ); u8 const * p = (u8 const *) &x, * q = (u8 const *) &y; for ( u8 j = 1; j < sizeof( T ); ++j ) { if ( p[j] != p[0] ) ++bad; if ( q[j] != q[0] ) ++bad; } out[1] = q[0]; } out[0] = bad; } \
    FN void writes_##n( u8 k ) { T a = make<T>( k ), b = make<T>( u8( ~k ) ); for ( u8 i = 0; i < k; ++i ) { mcu::atomic( n, a ); mcu::atomic( n, b ); } out[0] = 0; } \
    FN void flush_##n( u8 k ) { n = make<T>( k ); mcu::atomic( n, make<T>( u8( k + 1 ) ) ); T x = mcu::atomic( n ); mcu::atomic( n, make<T>( u8( k + 2 ) ) ); give( x ); }
LOOPS( g16, u16 ) LOOPS( g32, u32 ) LOOPS( g64, uint64_t ) LOOPS( g3, s3 ) LOOPS( g6, s6 ) LOOPS( gl, long ) LOOPS( v16, u16 ) LOOPS( v64, uint64_t )
