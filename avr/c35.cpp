#include "fw.hpp"
#include "num/fixed-point.hpp"
#include "num/matrix.hpp"
#include "dsp/kalman.hpp"
using namespace mcu; using namespace mcu::atmega328; using core::scoped_sreg;
GV volatile u8 inject, after, mode, cnt, sink; GV volatile u16 w16; GV volatile u32 w32;
// --- scopes: SREG is set, a guard built, the body disturbs SREG, the scope is left in some way, SREG is looked at
#define ENTER( v ) SREG = ( v ); GPIOR1 = 1
#define LEAVE() GPIOR1 = 2; after = SREG
#define NI static __attribute__((noinline))   // the compiler does not know that storing SREG changes the flags: keep such stores out of line
NI void disturb( u8 how, u8 x ) { switch ( how ) { case 0: SREG = x; break; case 1: core::sreg::whole::write( x ); break; case 2: sei(); break; case 3: cli(); break; case 4: w16 = u16( w16 * 3u + x ); break; case 5: core::sreg::T::set(); core::sreg::C::toggle(); break; case 6: core::sreg::I::write( x & 1 ); break; case 7: { u32 t = w32; w32 = t * x + ( t >> 3 ); break; } default: break; } }
FN void s_plain( u8 v, u8 how, u8 x ) { ENTER( v ); { scoped_sreg _; disturb( how, x ); } LEAVE(); }
static __attribute__((noinline)) void early( u8 how, u8 x, u8 y ) { scoped_sreg _; disturb( how, x ); if ( y & 1 ) return; sink = x; if ( y & 2 ) return; disturb( 0, u8( ~x ) ); }
FN void s_return( u8 v, u8 how, u8 x, u8 y ) { ENTER( v ); early( how, x, y ); LEAVE(); }
FN void s_nested( u8 v, u8 how, u8 x, u8 y ) { ENTER( v ); { scoped_sreg a; disturb( how, x ); { scoped_sreg b; disturb( 0, y ); } sink = SREG; disturb( 1, u8( x ^ y ) ); } LEAVE(); }
FN void s_inner( u8 v, u8 how, u8 x, u8 y ) { { scoped_sreg a; ENTER( v ); { scoped_sreg b; disturb( how, x ); disturb( 0, y ); } LEAVE(); } }
FN void s_break( u8 v, u8 how, u8 x, u8 n ) { ENTER( v ); for ( u8 i = 0; i < 9; ++i ) { scoped_sreg _; disturb( how, x ); if ( i == ( n & 7 ) ) break; sink = i; } LEAVE(); }
FN void s_continue( u8 v, u8 how, u8 x, u8 n ) { ENTER( v ); for ( u8 i = 0; i < 3; ++i ) { scoped_sreg _; disturb( how, x ); if ( i == n ) continue; disturb( 0, x ); } LEAVE(); }
FN void s_goto( u8 v, u8 how, u8 x, u8 y ) { ENTER( v ); { scoped_sreg _; disturb( how, x ); if ( y & 1 ) goto out; disturb( 0, y ); } out: LEAVE(); }
static __attribute__((noinline)) u16 value( u8 how, u8 x ) { scoped_sreg _; disturb( how, x ); return u16( w16 + x ); }
FN u16 s_value( u8 v, u8 how, u8 x ) { ENTER( v ); u16 r = value( how, x ); LEAVE(); return r; }
static __attribute__((noinline)) void deep( u8 n, u8 how, u8 x ) { scoped_sreg _; disturb( how, x ); if ( n ) deep( n - 1, how, u8( x * 5 + n ) ); disturb( 0, x ); }
FN void s_deep( u8 v, u8 how, u8 x, u8 n ) { ENTER( v ); deep( n & 7, how, x ); LEAVE(); }
FN void s_switch( u8 v, u8 how, u8 x, u8 y ) { ENTER( v ); switch ( y & 3 ) { case 0: { scoped_sreg _; disturb( how, x ); break; } case 1: { scoped_sreg _; disturb( 0, x ); } default: { scoped_sreg _; disturb( 1, u8( x + y ) ); } } LEAVE(); }
// --- a handler that disturbs every flag
GV u8 arr[8]; GV volatile float fv = 1; GV volatile u32 ticks;
static __attribute__((noinline)) void work( u8 n ) { u16 a = w16; for ( u8 i = 0; i < n; ++i ) a = u16( a * 31u + i ) ^ u16( a >> 3 ); w16 = a; }
using Est = num::kalman<float, 2, 1, 1>;
static Est make( float q, float r ) { return Est( .5f, Est::A_t{ 1, .5f, 0, 1 }, Est::B_t{ .125f, .5f }, Est::H_t{ 1, 0 }, Est::Q_t{ q, 0, 0, q }, Est::R_t( r ), Est::P_t{ 1, 0, 0, 1 }, Est::xhat_t{ 0, 1 } ); }
static __attribute__((noinline)) void handler_estimator() { Est e = make( .25f, 2 ); e.update( Est::u_t( float( ticks & 7 ) ), Est::z_t( 3.f ) ); fv = e.system_state()( 0 ); }
ISR( TIMER0_COMPA_vect )
{
    scoped_sreg _; ++ticks; static u8 pre = 3;
    switch ( mode )
    {
        case 0: ++cnt; if ( --pre ) return; pre = 3; cnt = cnt + 7; return;
        case 1: work( 5 ); return;
        case 2: fv = fv * 1.01f + .5f; break;
        case 3: { scoped_sreg b; disturb( 0, u8( 0x7f & ticks ) ); } w32 = w32 * 1664525ul + 1013904223ul; break;
        case 4: disturb( 0, 0x7f ); break;
        case 5: disturb( 0, 0 ); break;
        case 7: { using fp = num::fixed_point<int32_t, 15>; static fp s( 1 ); s = s * fp( .75 ) + fp( 2. ) / fp( 3. ); w32 = u32( s.underlying_value() ); break; }
        case 8: { static num::matrix<int, 2, 2> p = { 1, 2, 3, 4 }; num::matrix<int, 2, 2> const q = { 0, 1, -1, 1 }; p = p * q + num::transposed( q ) - num::eye<int, 2>(); w16 = u16( p( 1, 0 ) ); break; }
        case 9: handler_estimator(); break;
        case 6: for ( u8 i = 0; i < 8; ++i ) arr[i] = u8( arr[i] * 7 + arr[(i+1)&7] ); if ( cnt & 1 ) return; PORTB ^= 0x20; break;
    }
}
// --- interrupted computations
GV u32 res[8];
FN u32 k_crc( u32 a, u8 n ) { u16 c = u16( a ); for ( u8 i = 0; i < n; ++i ) { c ^= u16( i * 73u ) << 8; for ( u8 k = 0; k < 8; ++k ) c = c & 0x8000 ? u16( c << 1 ) ^ 0x1021u : u16( c << 1 ); } return c; }
FN u32 k_mul( u32 a, u8 n ) { u32 h = a; for ( u8 i = 0; i < n; ++i ) { h = h * 2654435761ul + i; h ^= h >> 15; h += h / ( 3 + i ); } return h; }
FN u32 k_mul64( u32 a, u8 n ) { uint64_t h = a * 0x9E3779B97F4A7C15ull; for ( u8 i = 0; i < n; ++i ) { h ^= h >> 31; h *= 0xBF58476D1CE4E5B9ull; h -= uint64_t( i ) << 40; } return u32( h >> 16 ); }
FN u32 k_fix( u32 a, u8 n ) { using fp = num::fixed_point<int32_t, 15>; fp x( double( int( a & 31 ) ) ), s( 0 ); for ( u8 i = 0; i < n; ++i ) { s = s + x * fp( .75 ) - x / fp( 3. ); x = x * fp( .9 ); } return u32( s.underlying_value() ); }
FN u32 k_flt( u32 a, u8 n ) { float x = float( a & 1023 ) / 7, s = 0; for ( u8 i = 0; i < n; ++i ) { s += x * .37f - 1 / ( 1 + x ); x = x * .93f + .1f; } u32 r; __builtin_memcpy( &r, &s, 4 ); return r; }
FN u32 k_sort( u32 a, u8 n ) { u8 v[12]; if ( n > 12 ) n = 12; for ( u8 i = 0; i < n; ++i ) { a = a * 1103515245ul + 12345; v[i] = u8( a >> 16 ); } for ( u8 i = 1; i < n; ++i ) for ( u8 k = i; k && v[k-1] > v[k]; --k ) { u8 t = v[k]; v[k] = v[k-1]; v[k-1] = t; } u32 h = 0; for ( u8 i = 0; i < n; ++i ) h = h * 31 + v[i]; return h; }
FN u32 k_mat( u32 a, u8 n ) { num::matrix<int, 2, 2> m = { int( a & 7 ), 1, -2, 3 }, p = { 1, 0, 0, 1 }; for ( u8 i = 0; i < n; ++i ) p = p * m - m; return u32( u16( p( 1, 1 ) ) ) << 16 | u16( p( 1, 2 ) * 3 + p( 2, 1 ) * 5 + p( 2, 2 ) ); }
FN u32 k_bits( u32 a, u8 n ) { u8 x = u8( a ), y = u8( a >> 8 ), r = 0; for ( u8 i = 0; i < n; ++i ) { asm volatile( "bst %1,3\n bld %0,5\n lsl %0\n adc %0,%1\n swap %0\n sbci %0,17\n ror %0" : "+d"( r ) : "r"( x ) ); x = u8( x * 5 + y ); y = u8( y + r ); } return u32( r ) << 8 | y; }
FN u32 k_kal( u32 a, u8 n ) { Est e = make( .1f, float( 1 + ( a & 3 ) ) ); for ( u8 i = 0; i < n; ++i ) e.update( Est::u_t( float( a >> 4 & 7 ) ), Est::z_t( float( i ) - .5f ) ); u32 r, s; float x = e.system_state()( 0 ) + e.kalman_gain()( 0 ), y = e.estimation_error_covariance()( 1, 1 ); __builtin_memcpy( &r, &x, 4 ); __builtin_memcpy( &s, &y, 4 ); return r ^ s * 31; }
FN u32 k_guarded( u32 a, u8 n ) { u32 h = a; for ( u8 i = 0; i < n; ++i ) { scoped_sreg _; h = h * 33 + i; if ( h & 1 ) continue; h ^= h >> 7; } return h; }
