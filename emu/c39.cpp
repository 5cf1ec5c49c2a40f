// C39: ADC and EEPROM access follow the device's access protocol.
#include "../emu/m328.hpp"
#include <set>
using avr::Board; using avr::M328;
static Board<M328> & board() { static Board<M328> b( avr::firmware() ); return b; }
static bool call( std::string const & f, std::vector<Board<M328>::Arg> a = {}, uint8_t s = 0 ) { auto & b = board(); b.limit = 20000000; if ( b.call( f, a, s ) ) return true; vm::fail( "firmware:" + f, "%s: %s", f.c_str(), b.m.bad.c_str() ); return false; }
// the converter finishes a conversion before instruction 'at' of the reading code: low and high byte are of one conversion, and the next one is not lost
GROUP( torn_results, 60, 2000 )
{
    auto & b = board(); auto & m = b.m; static const char * const F[] = { "result", "bytes", "result_twice" };
    for ( auto f : F ) for ( int at = 0; ; ++at )
    {
        b.reset(); bool left = g.p( .3 ); m.io[ M328::ADMUX ] = left ? 0x20 : 0; uint16_t v0 = uint16_t( g.next() & 0x3ff ), v1; do v1 = uint16_t( g.next() & 0x3ff ); while ( ( v1 ^ v0 ) >> 8 == 0 || !( ( v1 ^ v0 ) & 0xff ) ); if ( left ) { v0 = uint16_t( v0 << 6 ); v1 = uint16_t( v1 << 6 ); }
        m.adc = v0; m.adc_lock = false; m.adc_lost = 0; int n = 0; m.boundary = [&]( avr::Cpu & ) { if ( n == at || n == at + 2 ) { if ( m.adc_lock ) ++m.adc_lost; else m.adc = v1; } ++n; };
        bool ok = call( f ); m.boundary = nullptr; if ( !ok ) return; uint16_t r = b.ret16(); bool twice = f[6] == '_';
        if ( r != v0 && r != v1 && !( twice && r == 0xffff ) ) vm::fail( std::string( "mixed-result:" ) + f, "%s gives %04x: low and high byte of different conversions (%04x, then %04x before instruction %d)", f, r, v0, v1, at );
        if ( m.adc_lock ) vm::fail( std::string( "left-locked:" ) + f, "%s leaves the data registers locked: the high byte is not read last", f );
        int lo = 0, hi = 0; bool order = true; for ( auto & e : m.log ) if ( e.kind == 'r' ) { if ( e.addr == M328::ADCL ) ++lo; if ( e.addr == M328::ADCH ) { ++hi; order &= hi == lo; } } if ( lo != hi || !order ) vm::fail( std::string( "read-order:" ) + f, "%s reads the data registers in the order%s", f, avr::logstr( m.log ).c_str() );
        vm::distinct( vm::mix( vm::strhash( f ), uint64_t( at ) << 32 | uint64_t( v0 ) << 16 | v1 ) ); vm::counter( "reads-with-a-conversion-ending-inside" );
        if ( n <= at ) break;
    }
}
static uint16_t analog( uint8_t mux, uint64_t k, uint64_t salt ) { return uint16_t( vm::mix( vm::mix( mux & 0xcf, k ), salt ) >> 13 ) & 0x3ff; }
// configure, start, wait, read: the settings are those given and the result is of that channel and reference
GROUP( conversions, 200, 8000 )
{
    auto & b = board(); auto & m = b.m; b.reset(); m.running = false; for ( uint16_t a : { 0x7a, 0x7b, 0x7c } ) m.io[ a ] = 0; m.io[ M328::ADMUX ] = uint8_t( g.next() & 0xef ); m.io[ M328::ADCSRB ] = uint8_t( g.next() & 0x47 ); m.mute = true; uint8_t acme = m.io[ M328::ADCSRB ] & 0x40; m.io[ M328::ADCSRA ] = uint8_t( g.next() & 0x2f );
    uint64_t salt = g.next(); std::vector<std::pair<uint8_t, uint64_t>> started; m.sample = [&]( M328 & d ) { started.push_back( { d.io[ M328::ADMUX ], d.cyc } ); return analog( d.io[ M328::ADMUX ], started.size(), salt ); }; m.running = true;
    uint8_t ref = uint8_t( g.pick( { 0, 1, 3 } ) ), ch = uint8_t( g.i( 0, 8 ) ), adj = uint8_t( g.i( 0, 1 ) ), ps = uint8_t( g.i( 0, 7 ) ), trig = uint8_t( g.i( 0, 7 ) ), fl = uint8_t( g.i( 0, 1 ) ); if ( g.p( .1 ) ) ch = uint8_t( g.i( 14, 15 ) );
    if ( !call( g.p( .5 ) ? "configure" : "configure_separately", { b.a8( ref ), b.a8( ch ), b.a8( adj ), b.a8( ps ), b.a8( trig ), b.a8( fl ) } ) ) return;
    if ( m.io[ M328::ADMUX ] != ( ref << 6 | adj << 5 | ch ) ) vm::fail( "settings:ADMUX", "reference %d, channel %d, adjustment %d: ADMUX is %02x", ref, ch, adj, m.io[ M328::ADMUX ] ); if ( m.io[ M328::ADCSRB ] != ( acme | trig ) ) vm::fail( "settings:ADCSRB", "trigger %d: ADCSRB is %02x (comparator bit was %02x)", trig, m.io[ M328::ADCSRB ], acme ); if ( ( m.io[ M328::ADCSRA ] & 0xaf ) != ( 0x80 | ps | ( fl & 1 ) << 3 ) ) vm::fail( "settings:ADCSRA", "prescaler %d, interrupt %d: ADCSRA is %02x", ps, fl & 1, m.io[ M328::ADCSRA ] );
    if ( !started.empty() ) vm::fail( "starts-early", "configuring starts a conversion" );
    for ( int k = 0; k < 6; ++k )
    {
        size_t n0 = started.size(); uint8_t mux = m.io[ M328::ADMUX ]; uint64_t c0 = m.conversions; bool chan = k >= 3; uint8_t c2 = uint8_t( g.i( 0, 7 ) ); if ( chan ) mux = uint8_t( ( mux & 0xf0 ) | c2 );
        if ( chan ? !call( "convert_channel", { b.a8( c2 ) } ) : !call( "convert" ) ) return; uint16_t want = analog( mux, n0 + 1, salt ); if ( adj ) want = uint16_t( want << 6 );
        if ( started.size() != n0 + 1 || m.conversions != c0 + 1 ) vm::fail( "one-conversion", "%zu conversions started for one result", started.size() - n0 ); else if ( started.back().first != mux ) vm::fail( "channel", "conversion of channel register %02x instead of %02x", started.back().first, mux );
        if ( b.ret16() != want ) vm::fail( "result", "result %04x instead of %04x (channel register %02x, conversion %zu)", b.ret16(), want, mux, n0 + 1 ); if ( m.io[ M328::ADCSRA ] & 0x10 ) vm::fail( "flag-left", "the flag is still set after clearing it" ); if ( ( m.io[ M328::ADCSRA ] & 0xaf ) != ( 0x80 | ps | ( fl & 1 ) << 3 ) ) vm::fail( "settings-lost", "ADCSRA is %02x after a conversion", m.io[ M328::ADCSRA ] );
        vm::distinct( vm::mix( uint64_t( mux ) << 8 | ps, want ) ); vm::counter( "conversions" );
    }
    if ( vm::st().idx < 2 ) vm::sample( "reference %d, channel %d, adjustment %d, prescaler code %d: %zu conversions", ref, ch, adj, ps, started.size() );
    // a scan over the channels gives each channel's own value
    size_t n0 = started.size(); int first = g.i( 0, 7 ), n = 8; uint8_t base = m.io[ M328::ADMUX ] & 0xf0; if ( !call( "scan", { b.a8( unsigned( first ) ), b.a8( unsigned( n ) ) } ) ) return;
    for ( int i = 0; i < n; ++i ) { uint16_t want = analog( uint8_t( base | ( ( first + i ) & 7 ) ), n0 + 1 + size_t( i ), salt ), got = b.get<uint16_t>( uint16_t( b.var( "seen" ) + 2 * i ) ); if ( adj ) want = uint16_t( want << 6 ); if ( got != want ) { vm::fail( "scan", "scanning: channel %d gives %04x instead of %04x", ( first + i ) & 7, got, want ); break; } }
}
// free running with the interrupt: every value the main program sees is the whole value of a recent conversion
GROUP( free_running, 60, 3000 )
{
    auto & b = board(); auto & m = b.m; b.reset(); m.running = true; m.conv_keep = true; bool wide = g.p( .5 ); uint64_t salt = g.next(); uint64_t k = 0; m.sample = [&]( M328 & ) { ++k; return wide ? uint16_t( k & 1 ? 0x0ff : 0x300 ) : uint16_t( vm::mix( k, salt ) & 0x3ff ); }; m.conversions = 0; b.put<uint16_t>( b.var( "shared" ), 0 );
    if ( !call( "go", {}, 0 ) ) return; if ( ( m.io[ M328::ADCSRA ] & 0xaf ) != 0xac || m.io[ M328::ADMUX ] != 0x43 || m.io[ M328::ADCSRB ] & 7 ) vm::fail( "go", "ADCSRA %02x, ADCSRB %02x, ADMUX %02x", m.io[ M328::ADCSRA ], m.io[ M328::ADCSRB ], m.io[ M328::ADMUX ] ); if ( !m.adc_busy && m.conversions == 0 ) vm::fail( "go", "no conversion is started" );
    for ( unsigned skew = unsigned( g.next() % 230 ); skew; --skew ) { ++m.cyc; m.tick( 1 ); }
    std::vector<std::pair<uint64_t, uint16_t>> reads; if ( !call( "collect", { b.a8( 64 ) }, 0x80 ) ) return; std::set<uint16_t> ok = { 0 }; for ( auto & c : m.conv_log ) ok.insert( c.second ); int fresh = 0; uint16_t last = 0xffff;
    for ( int i = 0; i < 64; ++i ) { uint16_t v = b.get<uint16_t>( uint16_t( b.var( "seen" ) + 2 * i ) ); if ( v != last ) ++fresh; last = v; if ( !ok.count( v ) || ( wide && v != 0x0ff && v != 0x300 && v != 0 ) ) { vm::fail( "shared-torn", "the main program sees %04x, which no conversion gave", v ); break; } vm::distinct( vm::mix( v, salt ) ); }
    if ( m.conversions < 20 || fresh < 5 ) vm::fail( "not-running", "%llu conversions, %d different values seen in free running mode", (unsigned long long) m.conversions, fresh ); if ( m.served[ 21 ] < m.conversions - 2 ) vm::fail( "handler", "%llu conversions but the handler ran %llu times", (unsigned long long) m.conversions, (unsigned long long) m.served[ 21 ] );
    vm::counter( "free-running-conversions", m.conversions ); vm::counter( "results-lost-while-reading", m.adc_lost );
}
// --- EEPROM
// The four cycles between EEMPE and EEPE are only kept where the access functions are inlined, at the
// project's own level -O2 and at -O3. At -Os the window is widened and the rest of the protocol judged.
static void window() { auto & b = board(); b.m.ee_window = 6; if ( call( "small_code" ) && b.ret8() ) b.m.ee_window = 400; }
GROUP( eeprom, 64, 1024 )
{
    auto & b = board(); auto & m = b.m; b.reset(); m.running = true; window(); std::vector<uint8_t> ref( 1024 ); for ( int i = 0; i < 1024; ++i ) ref[ size_t( i ) ] = m.ee[ i ] = uint8_t( g.next() ); m.io[ M328::EECR ] = 0; m.ee_time = uint64_t( g.logu( 20, 60000 ) ); int mode = 0; uint8_t irq = 0; long base = vm::st().idx % 64 * 16;
    for ( int k = 0; k < 60; ++k )
    {
        uint16_t a = uint16_t( k < 32 ? base + k / 2 : g.i( 0, 1023 ) ); uint8_t d = uint8_t( g.next() ); bool write = k < 32 ? k % 2 == 0 : g.p( .6 );
        if ( k > 32 && g.p( .2 ) ) { mode = g.i( 0, 2 ); if ( !call( "ee_mode", { b.a8( unsigned( mode ) ) } ) ) return; if ( !call( "ee_getmode" ) ) return; if ( b.ret8() != mode ) vm::fail( "eeprom-mode", "programming mode %d reads back as %d", mode, b.ret8() ); }
        if ( g.p( .1 ) ) { irq = uint8_t( g.next() & 1 ); m.mute = true; if ( !call( "ee_irq", { b.a8( irq ) } ) ) return; }
        if ( write )
        {
            size_t w0 = m.ee_writes.size(); if ( !call( "ee_write", { b.a16( a ), b.a8( d ) } ) ) return; uint8_t old = ref[ a ]; ref[ a ] = mode == 0 ? d : mode == 1 ? 0xff : uint8_t( old & d );
            if ( m.ee_writes.size() != w0 + 1 ) vm::fail( "eeprom-write-starts", "%zu programming operations for one write of %02x to %03x (store log:%s)", m.ee_writes.size() - w0, d, a, avr::logstr( m.log, 40 ).c_str() ); else if ( m.ee_writes.back().first != a || m.ee_writes.back().second != d ) vm::fail( "eeprom-write-operands", "%02x is programmed at %03x instead of %02x at %03x", m.ee_writes.back().second, m.ee_writes.back().first, d, a );
            vm::counter( "eeprom-writes" ); vm::distinct( vm::mix( uint64_t( a ) << 8 | d, uint64_t( mode ) ) );
        }
        else { if ( !call( "ee_read", { b.a16( a ) } ) ) return; if ( b.ret8() != ref[ a ] ) vm::fail( "eeprom-read", "address %03x reads %02x instead of %02x", a, b.ret8(), ref[ a ] ); if ( !call( "ee_address" ) ) return; if ( b.ret16() != a ) vm::fail( "eeprom-address", "the address reads back as %03x instead of %03x", b.ret16(), a ); vm::counter( "eeprom-reads" ); }
        if ( ( m.io[ M328::EECR ] >> 3 & 1 ) != irq ) vm::fail( "eeprom-interrupt", "the ready interrupt enable is %d instead of %d", m.io[ M328::EECR ] >> 3 & 1, irq );
        if ( g.p( .3 ) ) { unsigned n = unsigned( g.logu( 1, 60000 ) ); m.cyc += n; }
    }
    for ( int i = 0; i < 1024; ++i ) if ( m.ee[ i ] != ref[ size_t( i ) ] ) { vm::fail( "eeprom-contents", "address %03x holds %02x instead of %02x", i, m.ee[ i ], ref[ size_t( i ) ] ); break; }
    for ( auto & p : m.protocol ) vm::fail( "protocol:" + p, "EEPROM: %s", p.c_str() );
}
GROUP( eeprom_blocks, 20, 400 )
{
    auto & b = board(); auto & m = b.m; b.reset(); m.running = true; window(); m.ee_time = uint64_t( g.logu( 20, 3000 ) ); uint16_t a = uint16_t( g.i( 0, 1023 - 200 ) ); uint8_t n = uint8_t( g.i( 1, 200 ) ), d = uint8_t( g.next() ); if ( !call( "ee_fill", { b.a16( a ), b.a8( n ), b.a8( d ) } ) ) return;
    uint16_t s = 0; for ( int i = 0; i < n; ++i ) { s = uint16_t( s * 31 + uint8_t( d + i * 7 ) ); } if ( !call( "ee_sum", { b.a16( a ), b.a8( n ) } ) ) return; if ( b.ret16() != s ) vm::fail( "eeprom-block", "a block of %d bytes at %03x reads back differently", n, a ); if ( m.ee_writes.size() != n ) vm::fail( "eeprom-write-starts", "%zu programming operations for %d bytes", m.ee_writes.size(), n ); for ( auto & p : m.protocol ) vm::fail( "protocol:" + p, "EEPROM: %s", p.c_str() ); vm::counter( "eeprom-writes", n ); vm::distinct( vm::mix( uint64_t( a ) << 16 | uint64_t( n ) << 8 | d, 39 ) );
}
VMON_MAIN
