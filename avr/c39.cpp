#include "fw.hpp"
using namespace mcu::atmega328;
GV volatile u16 shared; GV u16 seen[64];
// --- ADC
FN u16 result() { return adc::conversion::result(); }
FN u16 result_twice() { u16 a = adc::conversion::result(); u16 b = adc::conversion::result(); return a ^ b ? 0xffff : a; }
FN u16 bytes() { u8 l = adc::conversion::lsb(); u8 h = adc::conversion::msb(); return u16( h << 8 | l ); }
FN void configure( u8 ref, u8 ch, u8 adj, u8 ps, u8 trig, u8 flags )
{
    using namespace adc;
    set( input::reference( ref ) ), set( input::channel( ch ) ), set( conversion::adjustment( adj ) );
    set( trigger::on( trig ) );
    set( prescale::factor( ps ) ), set( enable::adc::on ), set( enable::interrupt( flags & 1 ) ), set( enable::auto_trigger( flags >> 1 & 1 ) );
}
FN void configure_separately( u8 ref, u8 ch, u8 adj, u8 ps, u8 trig, u8 flags )
{
    using namespace adc;
    set( input::channel( ch ) ); set( conversion::adjustment( adj ) ); set( input::reference( ref ) ); set( enable::auto_trigger( flags >> 1 & 1 ) ); set( prescale::factor( ps ) ); set( trigger::on( trig ) ); set( enable::interrupt( flags & 1 ) ); set( enable::adc::on );
}
FN void start() { adc::conversion::start(); }
FN void wait() { while ( !current( adc::interrupt::flag{} ) ) ; clear( adc::interrupt::flag{} ); }
FN u16 convert() { adc::conversion::start(); while ( !current( adc::interrupt::flag{} ) ) ; u16 v = adc::conversion::result(); clear( adc::interrupt::flag{} ); return v; }
FN u16 convert_channel( u8 ch ) { set( adc::input::channel( ch ) ); return convert(); }
FN void scan( u8 first, u8 n ) { for ( u8 i = 0; i < n; ++i ) seen[ i ] = convert_channel( u8( ( first + i ) & 7 ) ); }
FN void go() { using namespace adc; set( input::reference::avcc ), set( input::channel::ch3 ); set( trigger::on::free_run ); set( prescale::factor::x16 ), set( enable::adc::on ), set( enable::interrupt::on ), set( enable::auto_trigger::on ), conversion::start(); }
ISR( ADC_vect ) { core::scoped_sreg _; shared = adc::conversion::result(); }
FN void collect( u8 n ) { for ( u8 i = 0; i < n; ++i ) { seen[ i ] = mcu::atomic( shared ); for ( u8 k = 0; k < 40 + i; ++k ) asm volatile( "nop" ); } }
// --- EEPROM
#ifdef __OPTIMIZE_SIZE__
FN u8 small_code() { return 1; }
#else
FN u8 small_code() { return 0; }
#endif
namespace ee = mcu::atmega328::mem::eeprom;
static inline bool busy() { return ee::enable::current( ee::enable::write{} ) == ee::enable::write::on; }
FN void ee_write( u16 a, u8 d ) { while ( busy() ) ; ee::set( ee::address{ a } ); ee::set( ee::data{ d } ); ee::enable::set( ee::enable::master_write::on ); ee::enable::set( ee::enable::write::on ); }
FN u8 ee_read( u16 a ) { while ( busy() ) ; ee::set( ee::address{ a } ); ee::enable::set( ee::enable::read::on ); return u8( ee::current( ee::data{} ) ); }
FN void ee_mode( u8 m ) { while ( busy() ) ; ee::program::set( ee::program::mode( m ) ); }
FN u8 ee_getmode() { return u8( ee::program::current( ee::program::mode{} ) ); }
FN void ee_irq( u8 on ) { ee::interrupt::set( ee::interrupt::on_ready( on & 1 ) ); }
FN u16 ee_address() { return u16( ee::current( ee::address{} ) ); }
FN void ee_fill( u16 a, u8 n, u8 d ) { for ( u8 i = 0; i < n; ++i ) { ee_write( a + i, u8( d + i * 7 ) ); } }
FN u16 ee_sum( u16 a, u8 n ) { u16 s = 0; for ( u8 i = 0; i < n; ++i ) s = u16( s * 31 + ee_read( a + i ) ); return s; }
