// C40: the example firmware performs its documented function on the device.
// Whole programs run from reset, with arbitrary memory contents at power-up; judged from the pins, the
// PWM compare value and the times interrupts are served, against the converter's input history.
#include "../emu/m328.hpp"
#include <algorithm>
#include <memory>
using avr::M328;
enum { ADC_DAC, BLINK_ISR, BLINK, FADE, ADC_ISR, KALMAN };
static const uint64_t MS = 16000;
struct Dev : M328
{
    std::vector<uint64_t> beats; void ack( int v ) override { if ( v == 14 ) beats.push_back( cyc ); M328::ack( v ); }
};
struct Run
{
    Dev m; const char * name; Run( size_t fw, const char * n, vm::Rng & g ) : name( n )
    {
        for ( auto & x : m.ram ) x = uint8_t( g.next() ); for ( auto & x : m.r ) x = uint8_t( g.next() );
        m.load( avr::firmware( fw ) ); m.running = true; m.port_keep = true; m.conv_keep = true; m.t0_pre = 0; m.min_sp = avr::RAMEND;
    }
    bool run( uint64_t until, bool stop = false )
    {
        uint32_t last = 0; int same = 0; uint64_t from = m.cyc;
        while ( m.cyc < until && !m.halted ) { m.step(); if ( stop ) { same = m.pc == last ? same + 1 : 0; last = m.pc; if ( same > 20 ) return true; } }
        vm::event();
        if ( m.halted ) { vm::fail( std::string( "runs:" ) + name, "%s stops after %llu ms: %s", name, (unsigned long long)( m.cyc / MS ), m.bad.c_str() ); return false; }
        vm::counter( "emulated-ms", ( m.cyc - from ) / MS ); return true;
    }
    // every port and direction register keeps its value outside the given pins
    void pins( uint8_t b, uint8_t c, uint8_t d, uint8_t outb, uint8_t outd, bool pullups = false )
    {
        uint8_t pb = m.io[ M328::PORTB ];
        for ( auto & e : m.ports )
        {
            if ( e.addr == M328::PORTB ) { uint8_t ch = uint8_t( ( e.val ^ ( pullups ? 0xff : 0 ) ) & ~b ); if ( ch ) { vm::fail( std::string( "other-pin:" ) + name, "%s sets PORTB to %02x at %llu us", name, e.val, (unsigned long long)( e.cyc / 16 ) ); return; } }
            if ( ( e.addr == M328::PORTC && ( e.val & ~c ) ) || ( e.addr == M328::PORTD && ( e.val & ~d ) ) ) { vm::fail( std::string( "other-pin:" ) + name, "%s sets port register %02x to %02x", name, e.addr, e.val ); return; }
            if ( ( e.addr == M328::DDRB && ( e.val & ~outb ) ) || ( e.addr == M328::DDRC && e.val ) || ( e.addr == M328::DDRD && ( e.val & ~outd ) ) ) { vm::fail( std::string( "other-output:" ) + name, "%s sets direction register %02x to %02x", name, e.addr, e.val ); return; }
        }
        (void) pb; if ( m.io[ M328::DDRB ] != outb || m.io[ M328::DDRC ] || m.io[ M328::DDRD ] != outd ) vm::fail( std::string( "outputs:" ) + name, "%s: DDRB %02x, DDRC %02x, DDRD %02x", name, m.io[ M328::DDRB ], m.io[ M328::DDRC ], m.io[ M328::DDRD ] );
        for ( auto & p : m.protocol ) vm::fail( "protocol:" + p, "%s: %s", name, p.c_str() );
    }
    struct Led { uint64_t cyc; bool on; };
    std::vector<Led> led() const { std::vector<Led> v; bool s = false; for ( auto & e : m.ports ) if ( e.addr == M328::PORTB ) { bool n = e.val & 0x20; if ( n != s ) v.push_back( { e.cyc, n } ); s = n; } return v; }
    void stack() { unsigned used = avr::RAMEND - m.min_sp, room = unsigned( m.min_sp - m.ram_lo ); vm::counter( "stack-bytes", used ); if ( m.min_sp < m.ram_lo ) vm::fail( std::string( "stack:" ) + name, "the stack grows into the data" ); (void) room; }
};
static void heartbeat( Run & r )
{
    auto & b = r.m.beats; if ( b.size() < r.m.cyc / MS * 97 / 100 ) { vm::fail( std::string( "heartbeat:" ) + r.name, "%s: %zu heartbeats in %llu ms", r.name, b.size(), (unsigned long long)( r.m.cyc / MS ) ); return; }
    for ( size_t i = 1; i < b.size(); ++i ) { double ms = double( b[ i ] - b[ i - 1 ] ) / double( MS ); if ( ms < .97 || ms > 1.03 ) { vm::fail( std::string( "heartbeat:" ) + r.name, "%s: %.3f ms between two heartbeats", r.name, ms ); return; } }
    vm::counter( "heartbeats", b.size() );
}
// converter input histories
static std::function<uint16_t( uint64_t )> history( vm::Rng & g, int kind )
{
    uint64_t salt = g.next(); uint16_t c = uint16_t( g.pick( { 0, 1, 2, 3, 4, 511, 512, 513, 1022, 1023 } ) ), lo = uint16_t( g.i( 0, 1023 ) ), hi = uint16_t( g.i( 0, 1023 ) ); uint64_t len = uint64_t( g.logu( 1, 30 ) );
    switch ( kind )
    {
        case 0: return [=]( uint64_t ) { return c; };
        case 1: return [=]( uint64_t ms ) { return uint16_t( vm::mix( ms / 100, salt ) >> 9 & 0x3ff ); };
        case 2: return [=]( uint64_t ms ) { return uint16_t( vm::mix( ms / ( 50 * len ), salt ) >> 20 & 1 ? hi : lo ); };
        case 3: return [=]( uint64_t ms ) { return uint16_t( ms * len / 4 & 0x3ff ); };
        case 4: return [=]( uint64_t ms ) { return uint16_t( vm::mix( ms / 100, salt ) & 1 ? 512 : 511 ); };
        case 5: return [=]( uint64_t ms ) { static const uint16_t V[] = { 0, 2, 3, 4, 255, 256, 511, 512, 767, 768, 1022, 1023 }; return V[ vm::mix( ms / 40, salt ) % 12 ]; };
        case 6: { auto n = std::make_shared<uint64_t>( 0 ); return [=]( uint64_t ) { return uint16_t( vm::mix( ++*n, salt ) >> 11 & 0x3ff ); }; }
    }
    auto n = std::make_shared<uint64_t>( 0 ); return [=]( uint64_t ) { return uint16_t( ++*n & 1 ? 0x0ff : 0x300 ); };      // halves of different conversions would show
}
GROUP( adc_to_pwm, 8, 160 )
{
    Run r( ADC_DAC, "adc-dac", g ); auto & m = r.m; auto h = history( g, int( vm::st().idx % 8 ) ); m.sample = [&]( M328 & d ) { return h( d.cyc / MS ); }; uint64_t dur = 2150 + g.next() % ( vm::st().thorough ? 3000 : 1200 );
    m.ocr1a_log.clear(); if ( !r.run( dur * MS ) ) return; r.pins( 0x20, 0, 0, 0x22, 0 ); r.stack(); heartbeat( r );
    if ( m.io[ M328::ADMUX ] != 0x40 || ( m.io[ M328::ADCSRA ] & 0xaf ) != 0xaf || ( m.io[ M328::ADCSRB ] & 7 ) ) vm::fail( "adc-setup", "ADMUX %02x, ADCSRA %02x, ADCSRB %02x", m.io[ M328::ADMUX ], m.io[ M328::ADCSRA ], m.io[ M328::ADCSRB ] );
    if ( m.io[ M328::TCCR1A ] != 0x83 || ( m.io[ M328::TCCR1B ] & 0x17 ) != 1 ) vm::fail( "pwm-setup", "TCCR1A %02x, TCCR1B %02x", m.io[ M328::TCCR1A ], m.io[ M328::TCCR1B ] );
    if ( m.conversions < dur * 9 ) vm::fail( "conversions", "%llu conversions in %llu ms", (unsigned long long) m.conversions, (unsigned long long) dur );
    // the LED blinks three times
    auto led = r.led(); if ( led.size() < 6 ) { vm::fail( "blink", "the LED changes %zu times", led.size() ); return; }
    for ( size_t i = 0; i < 6; ++i ) { double ms = double( led[ i ].cyc - ( i ? led[ i - 1 ].cyc : 0 ) ) / double( MS ); if ( led[ i ].on != !( i & 1 ) || ms < 97 || ms > 103 ) vm::fail( "blink", "change %zu of the LED to %d after %.1f ms", i, led[ i ].on, ms ); }
    // then every 100 ms and every second; values a little older than the action may count
    auto values = [&]( uint64_t t ) { std::vector<uint16_t> v; auto it = std::upper_bound( m.conv_log.begin(), m.conv_log.end(), t, []( uint64_t a, std::pair<uint64_t, uint16_t> const & c ) { return a < c.first; } ); for ( int k = 0; k < 2 && it != m.conv_log.begin(); ++k ) v.push_back( ( --it )->second ); return v; };
    const uint64_t late = 3000; bool state = false; size_t li = 6, oi = 0; uint64_t acted = led[5].cyc + 1;
    for ( size_t n = 700; n <= m.beats.size(); n += 100 )
    {
        uint64_t t = m.beats[ n - 1 ]; if ( t + late > m.cyc ) break; bool sec = n % 1000 == 0; std::vector<Run::Led> ch; while ( li < led.size() && led[ li ].cyc < t ) { vm::fail( "led-untimely", "the LED goes %s at %llu us, between two actions", led[ li ].on ? "on" : "off", (unsigned long long)( led[ li ].cyc / 16 ) ); ++li; } while ( li < led.size() && led[ li ].cyc <= t + late ) ch.push_back( led[ li++ ] );
        bool maybe_hi = false, maybe_lo = false; std::vector<uint16_t> seen; for ( auto u : { t, t + late / 2, t + late } ) for ( auto v : values( u ) ) { seen.push_back( v ); ( v > 511 ? maybe_hi : maybe_lo ) = true; }
        bool before = state; for ( auto & c : ch ) state = c.on;
        if ( !sec ) { if ( maybe_hi && !maybe_lo && !state ) vm::fail( "led-upper-half", "input %d at %zu ms: the LED stays off", seen[0], n ); if ( !maybe_hi && state != before ) vm::fail( "led-lower-half", "input %d at %zu ms: the LED goes on", seen[0], n ); if ( before && !state ) vm::fail( "led-off-early", "the LED goes off at %zu ms", n ); }
        else { if ( !maybe_hi && state ) vm::fail( "led-off", "input %d: the LED is not put off at %zu ms", seen[0], n ); if ( before && ch.empty() ) vm::fail( "led-off", "the LED is not put off at %zu ms", n ); }
        while ( oi < m.ocr1a_log.size() && m.ocr1a_log[ oi ].first < t ) { vm::fail( "pwm-untimely", "the PWM value becomes %d between two actions", m.ocr1a_log[ oi ].second ); ++oi; }
        if ( sec )
        {
            if ( oi >= m.ocr1a_log.size() || m.ocr1a_log[ oi ].first > t + late ) { vm::fail( "pwm-missing", "no PWM value at %zu ms", n ); continue; }
            int got = m.ocr1a_log[ oi ].second; bool ok = false; for ( auto v : values( m.ocr1a_log[ oi ].first ) ) ok |= got == std::min( std::max( int( v ), 3 ), 1023 ); for ( auto v : seen ) ok |= got == std::min( std::max( int( v ), 3 ), 1023 );
            if ( !ok ) vm::fail( "pwm-value", "input %d: the PWM value is %d", seen[0], got ); ++oi; vm::distinct( vm::mix( uint64_t( got ), 40 ) ); vm::counter( "pwm-values" );
        }
        vm::counter( "led-decisions" ); vm::distinct( vm::mix( uint64_t( seen[0] ) << 8 | uint64_t( state ) << 1 | sec, vm::st().idx ) );
    }
    (void) acted; if ( m.ocr1a != ( m.ocr1a_log.empty() ? m.ocr1a : m.ocr1a_log.back().second ) ) vm::fail( "pwm-value", "the compare register does not hold the value written" );
    if ( vm::st().idx < 3 ) vm::sample( "%zu heartbeats, %zu LED changes, %zu PWM values, %llu conversions, stack %d bytes", m.beats.size(), led.size(), m.ocr1a_log.size(), (unsigned long long) m.conversions, avr::RAMEND - m.min_sp );
}
// around the moment a value is passed on, a conversion ends before any chosen instruction of the main program
GROUP( pwm_races, 2, 16 )
{
    Run r( ADC_DAC, "adc-dac", g ); auto & m = r.m; uint16_t a = 0x0ff, b = 0x300; if ( vm::st().idx > 1 ) { a = uint16_t( g.next() & 0x1ff ); do b = uint16_t( g.next() & 0x3ff ); while ( ( a >> 8 ) == ( b >> 8 ) || ( a & 0xff ) == ( b & 0xff ) ); }
    m.sample = [=]( M328 & d ) { return d.conversions & 1 ? a : b; }; auto ok = [=]( int v ) { return v == std::max( int( a ), 3 ) || v == std::max( int( b ), 3 ); };
    while ( m.beats.size() < 999 && !m.halted && m.cyc < 1200 * MS ) m.step();
    if ( m.halted || m.beats.size() < 999 ) { vm::fail( "runs:adc-dac", "the heartbeat is missing: %zu beats, %s", m.beats.size(), m.bad.c_str() ); return; }
    for ( uint64_t t = m.beats.back() + MS - 2400; m.cyc < t && !m.halted; ) m.step();
    if ( vm::st().idx & 1 ) { uint64_t t = m.adc_done + 200; while ( m.beats.size() < 1000 && !m.halted && m.cyc < t ) m.step(); }
    for ( int k = 0; k < ( vm::st().thorough ? 1200 : 300 ); ++k )
    {
        Dev d = m; int n = 0; bool done = false; size_t w0 = d.ocr1a_log.size(); uint64_t c0 = d.conversions;
        d.boundary = [&]( avr::Cpu & ) { if ( d.beats.size() >= 1000 && ( d.sreg & 0x80 ) && n++ == k && d.adc_busy ) { d.adc_finish(); done = true; } };
        uint64_t end = d.cyc + 4 * MS; while ( d.cyc < end && !d.halted && !( d.beats.size() >= 1000 && d.cyc > d.beats[ 999 ] + 6000 ) ) d.step();
        if ( d.halted ) { vm::fail( "runs:adc-dac", "conversion ending before instruction %d after the heartbeat: %s", k, d.bad.c_str() ); continue; }
        if ( d.ocr1a_log.size() != w0 + 1 ) vm::fail( "pwm-missing", "%zu PWM values after one second when a conversion ends before instruction %d", d.ocr1a_log.size() - w0, k );
        else if ( !ok( d.ocr1a_log.back().second ) || d.ocr1a != d.ocr1a_log.back().second ) vm::fail( "pwm-torn", "inputs %d and %d, a conversion ends before instruction %d after the heartbeat: the PWM value is %d", a, b, k, d.ocr1a_log.back().second );
        vm::event(); vm::counter( "races", done ); vm::distinct( vm::mix( uint64_t( k ) << 32 | uint64_t( a ) << 16 | b, 46 ) ); (void) c0;
    }
}
// every value the converter can give reaches the output, clamped, and decides the LED
GROUP( pwm_values, 2, 2 )
{
    Run r( ADC_DAC, "adc-dac", g ); auto & m = r.m; bool pwm = vm::st().idx == 0; size_t beat = pwm ? 1000 : 900; m.sample = []( M328 & ) { return uint16_t( 100 ); };
    while ( m.beats.size() + 1 < beat && !m.halted && m.cyc < 1200 * MS ) m.step(); if ( m.halted || m.beats.size() + 1 < beat ) { vm::fail( "runs:adc-dac", "the heartbeat is missing: %zu beats, %s", m.beats.size(), m.bad.c_str() ); return; }
    for ( uint64_t t = m.beats.back() + MS - 8000; m.cyc < t && !m.halted; ) m.step();
    if ( m.beats.size() >= beat || m.halted ) { vm::fail( "runs:adc-dac", "the heartbeat is untimely: %s", m.bad.c_str() ); return; }
    size_t nled = r.led().size();
    for ( int v = 0; v < 1024; ++v )
    {
        Dev d = m; d.sample = [=]( M328 & ) { return uint16_t( v ); }; size_t w0 = d.ocr1a_log.size(); d.ports.clear(); uint64_t end = d.cyc + 3 * MS; while ( d.cyc < end && !d.halted && !( d.beats.size() >= beat && d.cyc > d.beats[ beat - 1 ] + 6000 ) ) d.step();
        if ( d.halted ) { vm::fail( "runs:adc-dac", "input %d: %s", v, d.bad.c_str() ); continue; }
        bool lit = d.io[ M328::PORTB ] & 0x20; vm::event(); vm::distinct( vm::mix( uint64_t( v ) * 2 + pwm, 47 ) );
        if ( pwm ) { int want = v < 3 ? 3 : v; if ( d.ocr1a_log.size() != w0 + 1 || d.ocr1a_log.back().second != want || d.ocr1a != want ) vm::fail( "pwm-value", "input %d: %zu PWM values after a second, OCR1A is %d", v, d.ocr1a_log.size() - w0, d.ocr1a ); vm::counter( "pwm-values" ); }
        else { if ( d.ocr1a_log.size() != w0 ) vm::fail( "pwm-untimely", "input %d: a PWM value at 0.9 s", v ); if ( lit != ( v > 511 ) ) vm::fail( v > 511 ? "led-upper-half" : "led-lower-half", "input %d: the LED is %s at 0.9 s", v, lit ? "on" : "off" ); vm::counter( "led-decisions" ); }
    }
    (void) nled;
}
GROUP( blink_by_interrupt, 1, 6 )
{
    Run r( BLINK_ISR, "blink-led-isr", g ); if ( !r.run( uint64_t( g.i( 2100, 4200 ) ) * MS ) ) return; r.pins( 0x20, 0, 0, 0x20, 0, true ); r.stack(); heartbeat( r ); auto led = r.led();
    for ( size_t i = 1; i < led.size(); ++i ) { double ms = double( led[ i ].cyc - led[ i - 1 ].cyc ) / double( MS ); if ( ms < 970 || ms > 1030 || led[ i ].on == led[ i - 1 ].on ) vm::fail( "blink-isr-rate", "%.1f ms between two changes of the LED", ms ); vm::counter( "led-changes" ); vm::distinct( vm::mix( i, 41 ) ); }
    if ( led.size() < 3 ) vm::fail( "blink-isr-rate", "the LED changes %zu times in %llu ms", led.size(), (unsigned long long)( r.m.cyc / MS ) );
}
GROUP( blink_by_delay, 1, 4 )
{
    Run r( BLINK, "blink-led", g ); if ( !r.run( uint64_t( g.i( 1300, 2500 ) ) * MS ) ) return; r.pins( 0x20, 0, 0, 0x20, 0, true ); r.stack(); auto led = r.led(); double last = 0;
    for ( size_t i = 1; i < led.size(); ++i ) { double ms = double( led[ i ].cyc - led[ i - 1 ].cyc ) / double( MS ); if ( ms < 100 || ms > 400 || ( last && std::abs( ms - last ) > 1 ) ) vm::fail( "blink-rate", "%.1f ms between two changes of the LED", ms ); last = ms; vm::counter( "led-changes" ); vm::distinct( vm::mix( i, 42 ) ); }
    if ( led.size() < 4 ) vm::fail( "blink-rate", "the LED changes %zu times", led.size() ); if ( vm::st().idx == 0 ) vm::sample( "delay loop: %.1f ms between changes", last );
}
// the fading outputs follow one another: PD6 a quarter of PB1, PB2 the complement of PB1, in steps of one
GROUP( fade, 1, 4 )
{
    Run r( FADE, "fade-led", g ); if ( !r.run( uint64_t( g.i( 300, 2500 ) ) * MS ) ) return; r.stack(); auto & m = r.m; int last = -1; size_t n = 0; for ( auto & e : m.ocr1a_log ) { if ( last >= 0 && std::abs( int( e.second ) - last ) > 1 ) vm::fail( "fade-step", "PWM value %d after %d", e.second, last ); last = e.second; ++n; if ( e.second > 0x3ff ) vm::fail( "fade-range", "PWM value %d", e.second ); }
    if ( n < 20 ) vm::fail( "fade-step", "%zu PWM values", n ); if ( std::abs( int( m.ocr1a ) + int( m.ocr1b ) - 0x3ff ) > 1 ) vm::fail( "fade-complement", "PWM values %d and %d", m.ocr1a, m.ocr1b ); if ( m.io[ M328::DDRB ] != 0x26 || m.io[ M328::DDRD ] != 0x40 ) vm::fail( "fade-outputs", "DDRB %02x, DDRD %02x", m.io[ M328::DDRB ], m.io[ M328::DDRD ] );
    vm::counter( "fade-values", n ); vm::distinct( vm::mix( n, 43 ) );
}
// LED shows whether the input is in the upper half
GROUP( adc_level, 4, 60 )
{
    Run r( ADC_ISR, "adc-isr", g ); auto & m = r.m; uint16_t v = 0; m.sample = [&]( M328 & ) { return v; };
    for ( int k = 0; k < 30; ++k )
    {
        v = uint16_t( g.p( .3 ) ? g.pick( { 0, 511, 516, 1023, 255, 256, 768 } ) : g.i( 0, 1023 ) ); if ( v > 511 && v < 516 ) v = 520; if ( !r.run( m.cyc + 4 * MS ) ) return; m.ports.clear(); if ( !r.run( m.cyc + MS + g.next() % MS ) ) return;
        bool want = v > 512, ok = true; for ( auto & e : m.ports ) if ( e.addr == M328::PORTB && bool( e.val & 0x20 ) != want ) ok = false; if ( !ok || m.ports.empty() ) vm::fail( "adc-level", "input %d: the LED shows otherwise (%zu updates)", v, m.ports.size() ); vm::counter( "levels" ); vm::distinct( vm::mix( v, 44 ) );
    }
    r.stack();
}
// the filter on the device runs to its end within memory
GROUP( kalman, 1, 4 )
{
    Run r( KALMAN, "kalman-sim", g ); if ( !r.run( 20000 * MS, true ) ) return; r.stack(); if ( r.m.cyc >= 20000 * MS ) vm::fail( "kalman-ends", "the simulation does not end" ); vm::sample( "Kalman simulation: %llu instructions, %d bytes of stack", (unsigned long long) r.m.icount, avr::RAMEND - r.m.min_sp ); vm::distinct( vm::mix( r.m.icount, 45 ) ); if ( !r.m.ports.empty() ) vm::fail( "kalman-pins", "the simulation touches pins" );
}
VMON_MAIN
