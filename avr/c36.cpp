#include "fw.hpp"
using namespace mcu::atmega328;
FN u8 write( u8 address, u8 byte ) { return twi::sync::write( address, byte ); }
FN void init( u8 r, u8 p ) { twi::sync::init( twi::control::rate{ r }, twi::control::prescale::factor( p ) ); }
FN void init_rate( u8 r ) { twi::sync::init( twi::control::rate{ r } ); }
FN void init_default() { twi::sync::init(); }
// a device register written as example code would: stop at the first error
FN u8 burst( u8 address, u8 first, u8 n ) { u8 i = 0; for ( ; i < n; ++i ) { while ( TWCR & ( 1 << TWSTO ) ) ; if ( twi::sync::write( address, u8( first + i ) ) ) break; } return i; }
