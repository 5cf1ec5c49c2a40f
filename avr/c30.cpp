#include "fw.hpp"
using namespace mcu; using namespace mcu::atmega328;
// four fields covering a register (0: bits 7..6, 1: bit 5, 2: bits 4..3, 3: bits 2..0), combined in every order
#define P( A ) template< int N > struct p##A; \
    template<> struct p##A<0> : bitfield8_t<rw_t, A, 7, 6> {}; template<> struct p##A<1> : bitfield8_t<rw_t, A, 5> {}; template<> struct p##A<2> : bitfield8_t<rw_t, A, 4, 3> {}; template<> struct p##A<3> : bitfield8_t<rw_t, A, 2, 0> {};
#ifndef REG8
#define REG8 0x3e
#define FIRST 1
#endif
#define EXP_( M, A ) M( A )
#define EXP( M ) EXP_( M, REG8 )
EXP( P )
#define S( A, a ) p##A<a>::write_lazy( v##a )
#define ARGS u8 v0, u8 v1, u8 v2, u8 v3
#define C1( A, a ) FN void cb_##A##_##a( ARGS ) { S( A, a ); GPIOR2 = 1; }
#define C2( A, a, b ) FN void cb_##A##_##a##b( ARGS ) { S( A, a ), S( A, b ); GPIOR2 = 1; }
#define C3( A, a, b, c ) FN void cb_##A##_##a##b##c( ARGS ) { S( A, a ), S( A, b ), S( A, c ); GPIOR2 = 1; } FN void cn_##A##_##a##b##c( ARGS ) { S( A, a ), ( S( A, b ), S( A, c ) ); GPIOR2 = 1; }
#define C4( A, a, b, c, d ) FN void cb_##A##_##a##b##c##d( ARGS ) { S( A, a ), S( A, b ), S( A, c ), S( A, d ); GPIOR2 = 1; } FN void cn_##A##_##a##b##c##d( ARGS ) { ( S( A, a ), S( A, b ) ), ( S( A, c ), S( A, d ) ); GPIOR2 = 1; }
#define COMBOS( A ) \
    C1( A, 0 ) C1( A, 1 ) C1( A, 2 ) C1( A, 3 ) C2( A, 0, 1 ) C2( A, 0, 2 ) C2( A, 0, 3 ) C2( A, 1, 0 ) C2( A, 1, 2 ) C2( A, 1, 3 ) C2( A, 2, 0 ) C2( A, 2, 1 ) C2( A, 2, 3 ) C2( A, 3, 0 ) C2( A, 3, 1 ) C2( A, 3, 2 ) \
    C3( A, 0, 1, 2 ) C3( A, 0, 2, 1 ) C3( A, 1, 0, 2 ) C3( A, 1, 2, 0 ) C3( A, 2, 0, 1 ) C3( A, 2, 1, 0 ) C3( A, 0, 1, 3 ) C3( A, 0, 3, 1 ) C3( A, 1, 0, 3 ) C3( A, 1, 3, 0 ) C3( A, 3, 0, 1 ) C3( A, 3, 1, 0 ) \
    C3( A, 0, 2, 3 ) C3( A, 0, 3, 2 ) C3( A, 2, 0, 3 ) C3( A, 2, 3, 0 ) C3( A, 3, 0, 2 ) C3( A, 3, 2, 0 ) C3( A, 1, 2, 3 ) C3( A, 1, 3, 2 ) C3( A, 2, 1, 3 ) C3( A, 2, 3, 1 ) C3( A, 3, 1, 2 ) C3( A, 3, 2, 1 ) \
    C4( A, 0, 1, 2, 3 ) C4( A, 0, 1, 3, 2 ) C4( A, 0, 2, 1, 3 ) C4( A, 0, 2, 3, 1 ) C4( A, 0, 3, 1, 2 ) C4( A, 0, 3, 2, 1 ) C4( A, 1, 0, 2, 3 ) C4( A, 1, 0, 3, 2 ) C4( A, 1, 2, 0, 3 ) C4( A, 1, 2, 3, 0 ) C4( A, 1, 3, 0, 2 ) C4( A, 1, 3, 2, 0 ) \
    C4( A, 2, 0, 1, 3 ) C4( A, 2, 0, 3, 1 ) C4( A, 2, 1, 0, 3 ) C4( A, 2, 1, 3, 0 ) C4( A, 2, 3, 0, 1 ) C4( A, 2, 3, 1, 0 ) C4( A, 3, 0, 1, 2 ) C4( A, 3, 0, 2, 1 ) C4( A, 3, 1, 0, 2 ) C4( A, 3, 1, 2, 0 ) C4( A, 3, 2, 0, 1 ) C4( A, 3, 2, 1, 0 )
EXP( COMBOS )
// eight single bits at once, in three orders; v0 holds the bits
#define B( A, n ) bitfield8_t<rw_t, A, n>::write_lazy( v0 >> n & 1 )
#define EIGHT( A ) FN void ba_##A( u8 v0 ) { B( A, 0 ), B( A, 1 ), B( A, 2 ), B( A, 3 ), B( A, 4 ), B( A, 5 ), B( A, 6 ), B( A, 7 ); GPIOR2 = 1; } \
    FN void bd_##A( u8 v0 ) { B( A, 7 ), B( A, 6 ), B( A, 5 ), B( A, 4 ), B( A, 3 ), B( A, 2 ), B( A, 1 ), B( A, 0 ); GPIOR2 = 1; } \
    FN void bm_##A( u8 v0 ) { B( A, 3 ), B( A, 6 ), B( A, 0 ), B( A, 7 ), B( A, 2 ), B( A, 5 ), B( A, 1 ), B( A, 4 ); GPIOR2 = 1; } \
    FN void bp_##A( u8 v0 ) { B( A, 6 ), B( A, 1 ), B( A, 4 ); GPIOR2 = 1; }
EXP( EIGHT )
// constant values, which the compiler may turn into other instructions
#define K( A ) FN void k0_##A() { p##A<1>::write_lazy( 1 ); GPIOR2 = 1; } FN void k1_##A() { p##A<1>::write_lazy( 0 ); GPIOR2 = 1; } FN void k2_##A() { p##A<0>::write_lazy( 2 ), p##A<2>::write_lazy( 1 ); GPIOR2 = 1; } \
    FN void k3_##A() { p##A<3>::write_lazy( 5 ), p##A<1>::write_lazy( 0 ), p##A<0>::write_lazy( 3 ); GPIOR2 = 1; } FN void k4_##A() { p##A<2>::write_lazy( 0 ), p##A<3>::write_lazy( 0 ); GPIOR2 = 1; } FN void k5_##A() { bitfield8_t<rw_t, A, 7>::write_lazy( 1 ), bitfield8_t<rw_t, A, 0>::write_lazy( 1 ); GPIOR2 = 1; }
EXP( K )
#ifdef FIRST
// 16-bit registers: 15..12, 11, 10..3, 2..0
#define W( A ) FN void w4_##A( u8 v0, u8 v1, u8 v2, u8 v3 ) { using a = bitfield16_t<rw_t, A, 15, 12>; using b = bitfield16_t<rw_t, A, 11>; using c = bitfield16_t<rw_t, A, 10, 3>; using d = bitfield16_t<rw_t, A, 2, 0>; a::write_lazy( v0 ), b::write_lazy( v1 ), c::write_lazy( v2 ), d::write_lazy( v3 ); GPIOR2 = 1; } \
    FN void wr_##A( u8 v0, u8 v1, u8 v2, u8 v3 ) { using a = bitfield16_t<rw_t, A, 15, 12>; using b = bitfield16_t<rw_t, A, 11>; using c = bitfield16_t<rw_t, A, 10, 3>; using d = bitfield16_t<rw_t, A, 2, 0>; d::write_lazy( v3 ), c::write_lazy( v2 ), b::write_lazy( v1 ), a::write_lazy( v0 ); GPIOR2 = 1; } \
    FN void w2_##A( u8 v0, u8 v1, u8 v2, u8 v3 ) { using a = bitfield16_t<rw_t, A, 15, 12>; using c = bitfield16_t<rw_t, A, 10, 3>; c::write_lazy( v2 ), a::write_lazy( v0 ); GPIOR2 = 1; }
W( 0x41 ) W( 0x88 )
// settings of the peripherals combined in one statement
FN void s_adc( u8 a, u8 b, u8 c, u8 d ) { set( adc::enable::adc( a & 1 ) ), set( adc::enable::interrupt( b & 1 ) ), set( adc::enable::auto_trigger( c & 1 ) ), set( adc::prescale::factor( d & 7 ) ), adc::conversion::start(); GPIOR2 = 1; }
FN void s_adc2( u8 a, u8 b, u8 c, u8 d ) { adc::conversion::start(), set( adc::prescale::factor( d & 7 ) ), set( adc::enable::auto_trigger( c & 1 ) ), set( adc::enable::interrupt( b & 1 ) ), set( adc::enable::adc( a & 1 ) ); GPIOR2 = 1; }
FN void s_admux( u8 a, u8 b, u8 c, u8 ) { set( adc::input::reference( a & 3 ) ), set( adc::conversion::adjustment( b & 1 ) ), set( adc::input::channel( c & 15 ) ); GPIOR2 = 1; }
FN void s_admux2( u8 a, u8 b, u8 c, u8 ) { set( adc::input::channel( c & 15 ) ), set( adc::input::reference( a & 3 ) ), set( adc::conversion::adjustment( b & 1 ) ); GPIOR2 = 1; }
FN void s_com0( u8 a, u8 b, u8, u8 ) { set( tc0::output::a::mode( a & 3 ) ), set( tc0::output::b::mode( b & 3 ) ); GPIOR2 = 1; }
FN void s_com1( u8 a, u8 b, u8, u8 ) { set( tc1::output::b::mode( b & 3 ) ), set( tc1::output::a::mode( a & 3 ) ); GPIOR2 = 1; }
FN void s_timsk0( u8 a, u8 b, u8 c, u8 ) { set( tc0::enable::interrupt::on::match_a( a & 1 ) ), set( tc0::enable::interrupt::on::overflow( c & 1 ) ), set( tc0::enable::interrupt::on::match_b( b & 1 ) ); GPIOR2 = 1; }
FN void s_timsk1( u8 a, u8 b, u8 c, u8 d ) { set( tc1::enable::interrupt::on::capture( d & 1 ) ), set( tc1::enable::interrupt::on::match_b( b & 1 ) ), set( tc1::enable::interrupt::on::match_a( a & 1 ) ), set( tc1::enable::interrupt::on::overflow( c & 1 ) ); GPIOR2 = 1; }
FN void s_tccr1b( u8 a, u8 b, u8 c, u8 ) { set( tc1::input::clock( a & 7 ) ), set( tc1::input::capture::edge( b & 1 ) ), tc1::enable::capture::input_capture_noise_canceler( c & 1 ); GPIOR2 = 1; }
FN void s_eecr( u8 a, u8 b, u8 c, u8 d ) { set( mem::eeprom::program::mode( a & 3 ) ), set( mem::eeprom::interrupt::on_ready( b & 1 ) ), set( mem::eeprom::enable::master_write( c & 1 ) ), set( mem::eeprom::enable::write( d & 1 ) ); GPIOR2 = 1; }
FN void s_eicra( u8 a, u8 b, u8, u8 ) { ei::interrupt_sense<eint::int1>( ei::sense( a & 3 ) ), ei::interrupt_sense<eint::int0>( ei::sense( b & 3 ) ); GPIOR2 = 1; }
FN void s_acsr( u8 a, u8 b, u8 c, u8 d ) { set( ac::output::interrupt::on( a & 3 ) ), set( ac::enable::interrupt( b & 1 ) ), set( ac::enable::input::capture( c & 1 ) ), set( ac::input::select::bandgap_ref( d & 1 ) ); GPIOR2 = 1; }
FN void s_gtccr( u8 a, u8 b, u8 c, u8 ) { set( tcp::synchronization( a & 1 ) ), set( tcp::reset::prescaler::tc2( b & 1 ) ), set( tcp::reset::prescaler::tc01( c & 1 ) ); GPIOR2 = 1; }
FN void s_twcr( u8 a, u8 b, u8, u8 ) { set( twi::enable::interface( a & 1 ) ), set( twi::enable::interrupt( b & 1 ) ), set( twi::protocol::start{} ), set( twi::protocol::ack{} ); GPIOR2 = 1; }
FN void s_twcr2( u8 a, u8, u8, u8 ) { set( twi::interrupt::flag{} ), set( twi::protocol::stop{} ), set( twi::enable::interface( a & 1 ) ); GPIOR2 = 1; }
FN void s_twar( u8 a, u8 b, u8, u8 ) { set( twi::protocol::address( a & 127 ) ), set( twi::enable::general_call( b & 1 ) ); GPIOR2 = 1; }
FN void s_wave0( u8 a, u8 b, u8, u8 ) { set( tc0::output::waveform( a & 7 ) ), set( tc0::input::clock( b & 7 ) ); GPIOR2 = 1; }
FN void s_wave1( u8 a, u8 b, u8 c, u8 ) { set( tc1::output::waveform( a & 15 ) ), set( tc1::input::clock( b & 7 ) ), set( tc1::input::capture::edge( c & 1 ) ); GPIOR2 = 1; }
#endif
