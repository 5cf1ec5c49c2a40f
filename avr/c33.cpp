#include "fw.hpp"
using namespace mcu; using namespace mcu::atmega328;
#define FLAG( n, get, clr ) FN u8 get_##n() { return 0 != ( get ); } FN void clr_##n() { clr; GPIOR2 = 1; } FN u8 gcg_##n() { u8 a = 0 != ( get ); if ( a ) clr; return u8( a << 1 | ( 0 != ( get ) ) ); }
FLAG( int0, ei::external_int0_flag(), ei::clear_external_int0_flag() ) FLAG( int1, ei::external_int1_flag(), ei::clear_external_int1_flag() )
FLAG( pc0, ei::pin_change_int0_flag(), ei::clear_pin_change_int0_flag() ) FLAG( pc1, ei::pin_change_int1_flag(), ei::clear_pin_change_int1_flag() ) FLAG( pc2, ei::pin_change_int2_flag(), ei::clear_pin_change_int2_flag() )
#define F( n, ... ) FLAG( n, current( __VA_ARGS__{} ), clear( __VA_ARGS__{} ) )
F( tc0a, tc0::interrupt::compare::flag::a ) F( tc0b, tc0::interrupt::compare::flag::b ) F( tc0o, tc0::interrupt::overflow::flag )
F( tc1a, tc1::interrupt::compare::flag::a ) F( tc1b, tc1::interrupt::compare::flag::b ) F( tc1o, tc1::interrupt::overflow::flag ) F( tc1c, tc1::interrupt::capture::flag )
F( ac, ac::interrupt::flag ) F( adc, adc::interrupt::flag ) F( twi, twi::interrupt::flag )
// the register fields themselves
#define B( n, ... ) FLAG( b##n, __VA_ARGS__::read(), __VA_ARGS__::clear() )
B( int0, ei::eifr<eint::int0> ) B( int1, ei::eifr<eint::int1> ) B( pc0, ei::pcifr<pcint::int0> ) B( pc1, ei::pcifr<pcint::int1> ) B( pc2, ei::pcifr<pcint::int2> )
B( tc0a, tc0::reg::tifr0::ocf0a ) B( tc0b, tc0::reg::tifr0::ocf0b ) B( tc0o, tc0::reg::tifr0::tov0 ) B( tc1a, tc1::reg::tifr1::ocf1a ) B( tc1b, tc1::reg::tifr1::ocf1b ) B( tc1o, tc1::reg::tifr1::tov1 ) B( tc1c, tc1::reg::tifr1::icf1 )
B( ac, ac::reg::acsr::aci ) B( adc, adc::reg::adcsra::adif ) B( twi, twi::reg::twcr::twintc )
