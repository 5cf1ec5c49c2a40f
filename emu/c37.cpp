// C37: GPIO, LED and PWM helpers drive exactly their own pins and timer.
#include "../emu/m328.hpp"
using avr::Board; using avr::M328;
static Board<M328> & board() { static Board<M328> b( avr::firmware() ); return b; }
struct Op { const char * name; char reg, what; };   // reg: d(irection) o(utput) i(nput); what: s c t w r
static const Op OPS[] = { { "led_on", 'o', 's' }, { "led_off", 'o', 'c' }, { "led_toggle", 'o', 't' }, { "led_enable", 'd', 's' }, { "dir_set", 'd', 's' }, { "dir_clear", 'd', 'c' }, { "dir_toggle", 'd', 't' }, { "dir_write", 'd', 'w' }, { "dir_read", 'd', 'r' }, { "out_set", 'o', 's' }, { "out_clear", 'o', 'c' }, { "out_toggle", 'o', 't' }, { "out_write", 'o', 'w' }, { "out_read", 'o', 'r' }, { "inp_read", 'i', 'r' } };
static uint8_t EXT[3];
static void randomise( vm::Rng & g ) { auto & m = board().m; for ( int a = 0x20; a < 256; ++a ) if ( a < 0x5d || a > 0x5f ) m.io[ a ] = uint8_t( g.next() ); for ( auto & e : EXT ) e = uint8_t( g.next() ); m.pins = []( uint16_t a ) { return EXT[ ( a - 0x23 ) / 3 ]; }; m.running = false; m.mute = true; m.tcnt1 = uint16_t( g.next() ); m.icr1 = uint16_t( g.next() ); m.ocr1a = uint16_t( g.next() ); m.ocr1b = uint16_t( g.next() ); m.ocr1a_log.clear(); }
struct Snap { uint8_t io[256]; uint16_t t, i, a, b; };
static Snap snap() { auto & m = board().m; Snap s; memcpy( s.io, m.io, 256 ); s.t = m.tcnt1; s.i = m.icr1; s.a = m.ocr1a; s.b = m.ocr1b; return s; }
// registers other than the ones listed must be as before
static std::string others( Snap const & was, std::initializer_list<int> but, bool timer = true ) { auto & m = board().m; for ( int a = 0x20; a < 256; ++a ) { bool skip = false; for ( int x : but ) skip |= x == a; if ( !skip && m.io[ a ] != was.io[ a ] ) return vm::fmt( "register %02x changes from %02x to %02x", a, was.io[ a ], m.io[ a ] ); } if ( timer && m.ocr1a != was.a ) return "OCR1A changes"; if ( m.tcnt1 != was.t || m.icr1 != was.i || m.ocr1b != was.b ) return "a 16-bit timer register changes"; return ""; }
static bool apply( int port, int pin, Op const & op, uint8_t v, vm::Rng & )
{
    auto & b = board(); auto & m = b.m; Snap was = snap(); std::string f = vm::fmt( "%s_%c%d", op.name, 'B' + port, pin ); int ddr = 0x24 + 3 * port, out = 0x25 + 3 * port; uint8_t mask = uint8_t( 1 << pin ), d = was.io[ ddr ], o = was.io[ out ];
    if ( !b.call( f, { b.a8( v ) } ) ) { vm::fail( std::string( "firmware:" ) + op.name, "%s: %s", f.c_str(), m.bad.c_str() ); return false; }
    uint8_t & t = op.reg == 'd' ? d : o; switch ( op.what ) { case 's': t |= mask; break; case 'c': t &= uint8_t( ~mask ); break; case 't': t ^= mask; break; case 'w': t = uint8_t( v & 1 ? t | mask : t & ~mask ); break; }
    if ( m.io[ ddr ] != d ) vm::fail( std::string( "direction:" ) + op.name, "%s: DDR%c goes from %02x to %02x instead of %02x", f.c_str(), 'B' + port, was.io[ ddr ], m.io[ ddr ], d );
    if ( m.io[ out ] != o ) vm::fail( std::string( "output:" ) + op.name, "%s: PORT%c goes from %02x to %02x instead of %02x", f.c_str(), 'B' + port, was.io[ out ], m.io[ out ], o );
    std::string e = others( was, { ddr, out } ); if ( !e.empty() ) vm::fail( std::string( "other-register:" ) + op.name, "%s: %s", f.c_str(), e.c_str() );
    if ( op.what == 'r' ) { uint8_t level = uint8_t( ( EXT[ port ] & ~d ) | ( o & d ) ), want = uint8_t( ( op.reg == 'd' ? d : op.reg == 'o' ? o : level ) >> pin & 1 ); if ( b.ret8() != want ) vm::fail( std::string( "reads:" ) + op.name, "%s gives %d: DDR %02x, PORT %02x, external level %02x", f.c_str(), b.ret8(), d, o, EXT[ port ] ); }
    vm::distinct( vm::mix( vm::strhash( f.c_str() ), uint64_t( was.io[ ddr ] ) << 24 | uint64_t( was.io[ out ] ) << 16 | uint64_t( EXT[ port ] ) << 8 | v ) ); return true;
}
GROUP( pins, 24, 240 )
{
    int port = int( vm::st().idx % 24 / 8 ), pin = int( vm::st().idx % 8 ), reps = vm::st().thorough ? 64 : 24;
    for ( auto & op : OPS ) for ( int k = 0; k < reps; ++k ) { board().reset(); randomise( g ); apply( port, pin, op, uint8_t( g.next() ), g ); }
    vm::counter( "pins" ); vm::sample( "15 operations on pin P%c%d with random port contents", 'B' + port, pin );
}
GROUP( ports, 3, 30 )
{
    auto & b = board(); auto & m = b.m; int port = int( vm::st().idx % 3 ), ddr = 0x24 + 3 * port, out = ddr + 1; char P = char( 'B' + port );
    for ( int k = 0; k < 256; ++k )
    {
        b.reset(); randomise( g ); Snap was = snap(); uint8_t v = uint8_t( k ), level = uint8_t( ( EXT[ port ] & ~was.io[ ddr ] ) | ( was.io[ out ] & was.io[ ddr ] ) );
        auto call = [&]( const char * f, std::vector<Board<M328>::Arg> args = {} ) { std::string n = vm::fmt( "%s_%c", f, P ); if ( !b.call( n, args ) ) vm::fail( std::string( "firmware:" ) + f, "%s: %s", n.c_str(), m.bad.c_str() ); return b.ret8(); };
        if ( call( "pin_read" ) != level ) vm::fail( "reads:pin", "PIN%c reads %02x instead of %02x", P, b.ret8(), level ); if ( call( "ddr_read" ) != was.io[ ddr ] ) vm::fail( "reads:ddr", "DDR%c reads %02x instead of %02x", P, b.ret8(), was.io[ ddr ] ); if ( call( "port_read" ) != was.io[ out ] ) vm::fail( "reads:port", "PORT%c reads %02x instead of %02x", P, b.ret8(), was.io[ out ] );
        std::string e = others( was, {} ); if ( !e.empty() ) vm::fail( "reading-changes", "reading port %c: %s", P, e.c_str() );
        call( "ddr_write", { b.a8( v ) } ); e = others( was, { ddr } ); if ( m.io[ ddr ] != v || !e.empty() ) vm::fail( "writes:ddr", "DDR%c is %02x after writing %02x; %s", P, m.io[ ddr ], v, e.c_str() ); was = snap();
        call( "port_write", { b.a8( v ) } ); e = others( was, { out } ); if ( m.io[ out ] != v || !e.empty() ) vm::fail( "writes:port", "PORT%c is %02x after writing %02x; %s", P, m.io[ out ], v, e.c_str() );
        vm::distinct( vm::mix( uint64_t( port * 256 + k ), was.io[ out ] ) );
    }
}
// long histories of operations on all pins
GROUP( histories, 60, 3000 )
{
    board().reset(); randomise( g ); for ( int k = 0; k < 150; ++k ) { if ( g.p( .1 ) ) for ( auto & e : EXT ) e = uint8_t( g.next() ); if ( !apply( g.i( 0, 2 ), g.i( 0, 7 ), OPS[ g.next() % 15 ], uint8_t( g.next() ), g ) ) return; } vm::counter( "history-steps", 150 );
}
GROUP( pwm_init, 400, 20000 )
{
    auto & b = board(); auto & m = b.m; b.reset(); randomise( g ); m.io[ M328::TCCR1A ] &= 0xf3; m.io[ M328::TCCR1B ] &= 0xdf; uint8_t s = g.p( .5 ) ? 0x80 : 0; Snap was = snap(); bool up = g.p( .1 ); if ( !b.call( up ? "start_up" : "pwm_init", {}, up ? 0x80 : s ) ) { vm::fail( "firmware:pwm_init", "%s", m.bad.c_str() ); return; }
    uint8_t a = uint8_t( ( was.io[ M328::TCCR1A ] & 0x30 ) | 0x83 ), bb = uint8_t( ( was.io[ M328::TCCR1B ] & 0xc0 ) | 0x09 ), ddr = was.io[ M328::DDRB ] | 2; if ( up ) ddr |= 0x20;
    if ( m.io[ M328::TCCR1A ] != a ) vm::fail( "pwm-mode:TCCR1A", "TCCR1A goes from %02x to %02x instead of %02x (non-inverting, mode 7)", was.io[ M328::TCCR1A ], m.io[ M328::TCCR1A ], a );
    if ( m.io[ M328::TCCR1B ] != bb ) vm::fail( "pwm-mode:TCCR1B", "TCCR1B goes from %02x to %02x instead of %02x (mode 7, full clock)", was.io[ M328::TCCR1B ], m.io[ M328::TCCR1B ], bb );
    if ( m.io[ M328::DDRB ] != ddr ) vm::fail( "pwm-pin", "DDRB goes from %02x to %02x instead of %02x", was.io[ M328::DDRB ], m.io[ M328::DDRB ], ddr );
    if ( up ) { if ( m.io[ M328::PORTB ] != ( was.io[ M328::PORTB ] | 0x20 ) || m.io[ M328::PORTD ] != ( was.io[ M328::PORTD ] ^ 0x80 ) || m.io[ M328::DDRD ] != ( was.io[ M328::DDRD ] | 0x80 ) || m.ocr1a != 777 ) vm::fail( "start-up", "PORTB %02x, PORTD %02x, DDRD %02x, OCR1A %u after start-up", m.io[ M328::PORTB ], m.io[ M328::PORTD ], m.io[ M328::DDRD ], m.ocr1a ); }
    std::string e = up ? others( was, { M328::TCCR1A, M328::TCCR1B, M328::DDRB, M328::PORTB, M328::PORTD, M328::DDRD }, false ) : others( was, { M328::TCCR1A, M328::TCCR1B, M328::DDRB } ); if ( !e.empty() ) vm::fail( "pwm-disturbs", "initialising the PWM: %s", e.c_str() );
    if ( !up && ( m.sreg >> 7 ) != ( s >> 7 ) ) vm::fail( "pwm-interrupts", "initialising the PWM changes the interrupt flag" );
    vm::distinct( vm::mix( uint64_t( was.io[ M328::TCCR1A ] ) << 24 | uint64_t( was.io[ M328::TCCR1B ] ) << 16 | was.io[ M328::DDRB ], 37 ) ); vm::counter( "pwm-initialisations" );
}
GROUP( pwm_write, 128, 1024 )
{
    auto & b = board(); auto & m = b.m; b.reset(); unsigned per = 512;
    for ( unsigned k = 0; k < per; ++k )
    {
        uint16_t v = uint16_t( uint64_t( vm::st().idx % 128 ) * 512 + k ); randomise( g ); m.temp = uint8_t( g.next() ); Snap was = snap(); bool guarded = true; int bytes = 0;
        m.boundary = [&]( avr::Cpu & ) { size_t n = 0; for ( auto & e : m.log ) n += e.kind == 'w' && ( e.addr == M328::OCR1AL || e.addr == M328::OCR1AH ); if ( n == 1 && ( m.sreg & 0x80 ) ) guarded = false; bytes = int( n ); };
        bool ok = b.call( "pwm_write", { b.a16( v ) }, 0x80 ); m.boundary = nullptr; if ( !ok ) { vm::fail( "firmware:pwm_write", "%s", m.bad.c_str() ); return; }
        if ( m.ocr1a != v ) vm::fail( "pwm-value", "writing %04x leaves %04x in OCR1A", v, m.ocr1a ); if ( m.ocr1a_log.size() != 1 ) vm::fail( "pwm-once", "writing %04x updates OCR1A %zu times", v, m.ocr1a_log.size() );
        if ( !guarded ) vm::fail( "pwm-atomic", "writing %04x: interrupts are enabled between the two bytes", v ); if ( !( m.sreg & 0x80 ) ) vm::fail( "pwm-interrupts", "interrupts are disabled after writing %04x", v ); std::string e = others( was, {}, false ); if ( !e.empty() ) vm::fail( "pwm-disturbs", "writing %04x: %s", v, e.c_str() ); (void) bytes;
        vm::distinct( vm::mix( v, 370 ) );
    }
    if ( vm::st().idx == 0 ) { b.call( "pwm_min" ); unsigned lo = b.ret16(); b.call( "pwm_max" ); unsigned hi = b.ret16(); if ( hi != 1023 || lo >= hi ) vm::fail( "pwm-range", "duty range is %u..%u for a 10-bit PWM", lo, hi ); }
}
VMON_MAIN
