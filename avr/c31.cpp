#include "fw.hpp"
using namespace mcu; using namespace mcu::atmega328;
#define RD( n, ... ) FN auto rd_##n() { return __VA_ARGS__::read(); }
#define WR( n, ... ) FN void wr_##n( u16 v ) { __VA_ARGS__::write( (typename __VA_ARGS__::value_type) v ); }
#define WL( n, ... ) FN void wl_##n( u16 v ) { __VA_ARGS__::write_lazy( v ); }
#define CL( n, ... ) FN void cl_##n() { __VA_ARGS__::clear(); }
#define ACC_RW( n, ... ) RD( n, __VA_ARGS__ ) WR( n, __VA_ARGS__ )
#define ACC_CPU( n, ... ) RD( n, __VA_ARGS__ ) WR( n, __VA_ARGS__ )
#define ACC_RO( n, ... ) RD( n, __VA_ARGS__ )
#define ACC_W1C( n, ... ) RD( n, __VA_ARGS__ ) CL( n, __VA_ARGS__ )
#define F( n, t, addr, hi, lo, acc, w ) ACC_##acc( n, t )
#define K( n, e, a ) FN u8 k_##n() { return e; }
#include "../common/c31.def"
#undef F
#undef K
// deferred writes of the fields that have their own setting functions
#define LAZY( n, ... ) FN void wl_##n( u8 v ) { __VA_ARGS__::write_lazy( v ); }
LAZY( tccr0a_com0a, tc0::reg::tccr0a::com0a ) LAZY( tccr0b_cs0, tc0::reg::tccr0b::cs0 ) LAZY( tccr1a_com1b, tc1::reg::tccr1a::com1b ) LAZY( tccr1b_wgm1, tc1::reg::tccr1b::wgm1 ) LAZY( timsk1_icie1, tc1::reg::timsk1::icie1 )
LAZY( eecr_eepm, mem::reg::eecr::eepm ) LAZY( twar_twa, twi::reg::twar::twa ) LAZY( admux_mux, adc::reg::admux::mux ) LAZY( adcsra_adps, adc::reg::adcsra::adps ) LAZY( acsr_acis, ac::reg::acsr::acis ) LAZY( twcr_twsta, twi::reg::twcr::twsta ) LAZY( adcsrb_adts, adc::reg::adcsrb::adts ) LAZY( gtccr_tsm, tcp::reg::gtccr::tsm )
// named access functions of the external interrupts
FN u8 ei_en0() { return ei::enabled_external_int0(); } FN u8 ei_en1() { return ei::enabled_external_int1(); } FN void ei_sen0( u8 v ) { ei::enable_external_int0( v ); } FN void ei_sen1( u8 v ) { ei::enable_external_int1( v ); }
FN u8 ei_fl0() { return ei::external_int0_flag(); } FN u8 ei_fl1() { return ei::external_int1_flag(); }
FN u8 ei_pc0() { return ei::enabled_pin_change_int0(); } FN u8 ei_pc1() { return ei::enabled_pin_change_int1(); } FN u8 ei_pc2() { return ei::enabled_pin_change_int2(); }
FN void ei_spc0( u8 v ) { ei::enable_pin_change_int0( v ); } FN void ei_spc1( u8 v ) { ei::enable_pin_change_int1( v ); } FN void ei_spc2( u8 v ) { ei::enable_pin_change_int2( v ); }
FN u8 ei_pf0() { return ei::pin_change_int0_flag(); } FN u8 ei_pf1() { return ei::pin_change_int1_flag(); } FN u8 ei_pf2() { return ei::pin_change_int2_flag(); }
FN u8 ei_m0() { return ei::pin_change_interrupt_mask0(); } FN u8 ei_m1() { return ei::pin_change_interrupt_mask1(); } FN u8 ei_m2() { return ei::pin_change_interrupt_mask2(); }
FN void ei_sm0( u8 v ) { ei::pin_change_interrupt_mask0( v ); } FN void ei_sm1( u8 v ) { ei::pin_change_interrupt_mask1( v ); } FN void ei_sm2( u8 v ) { ei::pin_change_interrupt_mask2( v ); }
