#include "fw.hpp"
using namespace mcu;
#define RW( A, H, L ) \
    FN u8 rd_##A##_##H##_##L() { return bitfield8_t<rw_t, A, H, L>::read(); } \
    FN void wr_##A##_##H##_##L( u8 v ) { bitfield8_t<rw_t, A, H, L>::write( v ); } \
    FN void lz_##A##_##H##_##L( u8 v ) { bitfield8_t<rw_t, A, H, L>::write_lazy( v ); }
#define BIT( A, H ) RW( A, H, H ) \
    FN void set_##A##_##H() { bitfield8_t<rw_t, A, H>::set(); } \
    FN void clr_##A##_##H() { bitfield8_t<rw_t, A, H>::clear(); } \
    FN void tog_##A##_##H() { bitfield8_t<rw_t, A, H>::toggle(); } \
    FN void one_##A##_##H() { bitfield8_t<rw_t, A, H>::write( 1 ); } \
    FN void nul_##A##_##H() { bitfield8_t<rw_t, A, H>::write( 0 ); }
#define ALL( A ) \
    BIT( A, 0 ) BIT( A, 1 ) BIT( A, 2 ) BIT( A, 3 ) BIT( A, 4 ) BIT( A, 5 ) BIT( A, 6 ) BIT( A, 7 ) \
    RW( A, 1, 0 ) RW( A, 2, 0 ) RW( A, 3, 0 ) RW( A, 4, 0 ) RW( A, 5, 0 ) RW( A, 6, 0 ) RW( A, 7, 0 ) \
    RW( A, 2, 1 ) RW( A, 3, 1 ) RW( A, 4, 1 ) RW( A, 5, 1 ) RW( A, 6, 1 ) RW( A, 7, 1 ) \
    RW( A, 3, 2 ) RW( A, 4, 2 ) RW( A, 5, 2 ) RW( A, 6, 2 ) RW( A, 7, 2 ) \
    RW( A, 4, 3 ) RW( A, 5, 3 ) RW( A, 6, 3 ) RW( A, 7, 3 ) RW( A, 5, 4 ) RW( A, 6, 4 ) RW( A, 7, 4 ) \
    RW( A, 6, 5 ) RW( A, 7, 5 ) RW( A, 7, 6 )
// reached by sbi/cbi, by in/out, and by lds/sts
ALL( 0x3e ) ALL( 0x4a ) ALL( 0xb3 )
#define W8( A ) FN u8 rd8_##A() { return register8_t<rw_t, A>::read(); } FN void wr8_##A( u8 v ) { register8_t<rw_t, A>::write( v ); } FN void lz8_##A( u8 v ) { register8_t<rw_t, A>::write_lazy( v ); }
W8( 0x3e ) W8( 0x4a ) W8( 0xb3 ) W8( 0x23 ) W8( 0x5a ) W8( 0xfe )
#define W16( A ) FN u16 rd16_##A() { return register16_t<rw_t, A>::read(); } FN void wr16_##A( u16 v ) { register16_t<rw_t, A>::write( v ); } FN u16 rt16_##A() { return register_t<u16, rw_t, A>::read(); } FN void wt16_##A( u16 v ) { register_t<u16, rw_t, A>::write( v ); } FN void lz16_##A( u16 v ) { register16_t<rw_t, A>::write_lazy( v ); }
W16( 0x41 ) W16( 0x88 ) W16( 0x2a )
#define F16( A, H, L ) \
    FN u16 rd16_##A##_##H##_##L() { return bitfield16_t<rw_t, A, H, L>::read(); } \
    FN void wr16_##A##_##H##_##L( u16 v ) { bitfield16_t<rw_t, A, H, L>::write( v ); } \
    FN void lz16_##A##_##H##_##L( u16 v ) { bitfield16_t<rw_t, A, H, L>::write_lazy( v ); }
#define B16( A, H ) F16( A, H, H ) \
    FN void set16_##A##_##H() { bitfield16_t<rw_t, A, H>::set(); } FN void clr16_##A##_##H() { bitfield16_t<rw_t, A, H>::clear(); } FN void tog16_##A##_##H() { bitfield16_t<rw_t, A, H>::toggle(); }
#define ALL16( A ) \
    B16( A, 0 ) B16( A, 1 ) B16( A, 2 ) B16( A, 3 ) B16( A, 4 ) B16( A, 5 ) B16( A, 6 ) B16( A, 7 ) B16( A, 8 ) B16( A, 9 ) B16( A, 10 ) B16( A, 11 ) B16( A, 12 ) B16( A, 13 ) B16( A, 14 ) B16( A, 15 ) \
    F16( A, 1, 0 ) F16( A, 7, 0 ) F16( A, 8, 0 ) F16( A, 9, 0 ) F16( A, 14, 0 ) F16( A, 15, 1 ) F16( A, 15, 7 ) F16( A, 15, 8 ) F16( A, 15, 9 ) F16( A, 15, 12 ) F16( A, 8, 7 ) F16( A, 9, 6 ) F16( A, 11, 4 ) F16( A, 12, 3 ) F16( A, 6, 2 ) F16( A, 14, 13 )
ALL16( 0x41 ) ALL16( 0x88 )
// the other ways a bit can be accessed
#define POL( A, H ) \
    FN u8 r_##A##_##H() { return bitfield8_t<r_t, A, H>::read(); } \
    FN void ws_##A##_##H() { bitfield8_t<w_t, A, H>::set(); } FN void wc_##A##_##H() { bitfield8_t<w_t, A, H>::clear(); } FN void ww_##A##_##H( u8 v ) { bitfield8_t<w_t, A, H>::write( v ); } \
    FN u8 w1r_##A##_##H() { return bitfield8_t<rc_w1_t, A, H>::read(); } FN void w1c_##A##_##H() { bitfield8_t<rc_w1_t, A, H>::clear(); } \
    FN u8 w0r_##A##_##H() { return bitfield8_t<rc_w0_t, A, H>::read(); } FN void w0c_##A##_##H() { bitfield8_t<rc_w0_t, A, H>::clear(); } \
    FN u8 rcr_##A##_##H() { return bitfield8_t<rc_r_t, A, H>::read(); } \
    FN u8 rsr_##A##_##H() { return bitfield8_t<rs_t, A, H>::read(); } FN void rss_##A##_##H() { bitfield8_t<rs_t, A, H>::set(); } \
    FN u8 rtr_##A##_##H() { return bitfield8_t<rt_w, A, H>::read(); } FN void rtt_##A##_##H() { bitfield8_t<rt_w, A, H>::trigger(); }
#define POLS( A ) POL( A, 0 ) POL( A, 1 ) POL( A, 3 ) POL( A, 4 ) POL( A, 6 ) POL( A, 7 )
POLS( 0x3e ) POLS( 0x4a ) POLS( 0xb3 )
#define ROF( A, H, L ) FN u8 r_##A##_##H##_##L() { return bitfield8_t<r_t, A, H, L>::read(); } FN void w_##A##_##H##_##L( u8 v ) { bitfield8_t<w_t, A, H, L>::write( v ); }
#define ROFS( A ) ROF( A, 1, 0 ) ROF( A, 7, 3 ) ROF( A, 5, 2 ) ROF( A, 7, 6 ) ROF( A, 7, 0 )
ROFS( 0x3e ) ROFS( 0x4a ) ROFS( 0xb3 )
// the mask and shift helpers, for every argument
FN u8 bm8_1( u8 a ) { return bitmask<u8>( a ); } FN u8 bm8_2( u8 a, u8 b ) { return bitmask<u8>( a, b ); } FN u8 bm8_3( u8 a, u8 b, u8 c ) { return bitmask<u8>( a, b, c ); }
FN u8 bmn8( u8 a, u8 b ) { return bitmask_n<u8>( a, b ); } FN u16 bm16( u8 a, u8 b ) { return bitmask<u16>( a, b ); } FN u16 bmn16( u8 a, u8 b ) { return bitmask_n<u16>( a, b ); }
FN u8 rm8( u8 h, u8 l ) { return rngmask<u8>( h, l ); } FN u8 rmn8( u8 h, u8 l ) { return rngmask_n<u8>( h, l ); } FN u16 rm16( u8 h, u8 l ) { return rngmask<u16>( h, l ); } FN u16 rmn16( u8 h, u8 l ) { return rngmask_n<u16>( h, l ); }
FN u8 shl8( u8 v, u8 n ) { return shl( v, n ); } FN u8 shr8( u8 v, u8 n ) { return shr( v, n ); } FN u16 shl16( u16 v, u8 n ) { return shl( v, n ); } FN u16 shr16( u16 v, u8 n ) { return shr( v, n ); }
FN u8 bits8() { return mcu::bits<u8>(); } FN u8 bits16() { return mcu::bits<u16>(); }
// run-time use in a larger context: several fields of one register edited in turn
FN u8 mixed( u8 a, u8 b ) { using R = bitfield8_t<rw_t, 0xb3, 5, 3>; using S = bitfield8_t<rw_t, 0xb3, 2>; using Q = bitfield8_t<rw_t, 0x4a, 7, 6>; R::write( a ); if ( b & 1 ) S::set(); else S::clear(); Q::write( R::read() ); S::toggle(); return Q::read() + R::read(); }
