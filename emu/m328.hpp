// Peripheral behaviour of the ATmega328P as far as the library drives it: pins, interrupt flags
// cleared by writing one, 16-bit registers with their shared TEMP byte, timers 0 and 1, the ADC, the
// EEPROM and the TWI, each with the access protocol of the data sheet. Protocol violations are recorded.
#ifndef EMU_M328_HPP
#define EMU_M328_HPP
#include "avr.hpp"

namespace avr {

struct M328 : Cpu
{
    // register addresses (data sheet, register summary)
    enum { PINB = 0x23, DDRB, PORTB, PINC, DDRC, PORTC, PIND, DDRD, PORTD, TIFR0 = 0x35, TIFR1, TIFR2, PCIFR = 0x3b, EIFR, EIMSK, GPIOR0, EECR, EEDR, EEARL, EEARH, GTCCR, TCCR0A, TCCR0B, TCNT0, OCR0A, OCR0B,
           GPIOR1 = 0x4a, GPIOR2, ACSR = 0x50, TIMSK0 = 0x6e, TIMSK1, ADCL = 0x78, ADCH, ADCSRA, ADCSRB, ADMUX, DIDR0 = 0x7e, DIDR1, TCCR1A, TCCR1B, TCCR1C, TCNT1L = 0x84, TCNT1H, ICR1L, ICR1H, OCR1AL, OCR1AH, OCR1BL, OCR1BH,
           TWBR = 0xb8, TWSR, TWAR, TWDR, TWCR, TWAMR };
    std::vector<std::string> protocol;                       // access-protocol violations seen
    void breach( std::string const & s ) { if ( protocol.size() < 20 ) protocol.push_back( s ); }

    bool running = false;                                   // timers, ADC and TWI advance only when set
    // 16-bit TEMP
    uint8_t temp = 0; uint16_t tcnt1 = 0, icr1 = 0, ocr1a = 0, ocr1b = 0; std::vector<std::pair<uint64_t, uint16_t>> ocr1a_log;
    // flags
    static uint8_t flagmask( uint16_t a ) { switch ( a ) { case TIFR0: return 7; case TIFR1: return 0x27; case TIFR2: return 7; case EIFR: return 3; case PCIFR: return 7; } return 0; }

    // --- ADC: sample() supplies the analog value
    std::function<uint16_t( M328 & )> sample; uint16_t adc = 0, adc_next = 0; bool adc_lock = false, adc_busy = false, adc_first = true; uint64_t adc_done = 0, conversions = 0, adc_lost = 0; uint32_t noise = 0;
    std::vector<std::pair<uint64_t, uint16_t>> conv_log; bool conv_keep = false; uint8_t conv_mux = 0;
    void adc_start() { adc_busy = true; unsigned ps = io[ ADCSRA ] & 7; unsigned div = ps ? 1u << ps : 2; adc_done = cyc + ( adc_first ? 25 : 13 ) * div; adc_first = false; conv_mux = io[ ADMUX ]; adc_next = sample ? sample( *this ) & 0x3ff : 0; }
    void adc_finish()
    {
        adc_busy = false; ++conversions; uint16_t v = conv_mux & 0x20 ? uint16_t( adc_next << 6 ) : adc_next;
        if ( conv_keep ) conv_log.push_back( { cyc, v } );
        if ( adc_lock ) ++adc_lost; else adc = v;
        io[ ADCSRA ] |= 0x10; if ( ( io[ ADCSRA ] & 0x20 ) && ( io[ ADCSRB ] & 7 ) == 0 ) adc_start(); else io[ ADCSRA ] &= uint8_t( ~0x40 );
    }
    // --- EEPROM
    uint8_t ee[1024] = {}; uint64_t eempe_until = 0, ee_busy_until = 0; std::vector<std::pair<uint16_t, uint8_t>> ee_writes, ee_reads;
    uint64_t ee_time = 54400; unsigned ee_window = 6;       // four cycles, the instruction itself takes up to two
    // --- TWI
    struct Twi
    {
        bool on = false; uint64_t done = 0; int pending = 0; uint8_t next = 0xf8; std::vector<std::string> bus; int phase = 0;
        std::vector<uint8_t> script; size_t at = 0; std::function<unsigned()> latency; bool stop_pending = false; uint64_t stop_done = 0; bool fail_wcol = false;
    } twi;
    // --- timers
    uint32_t t0_pre = 0, t1_pre = 0; uint64_t t0_ticks = 0;

    static bool w1c( uint16_t a ) { return flagmask( a ) != 0; }
    uint8_t ioread( uint16_t a ) override
    {
        switch ( a )
        {
            case PINB: case PINC: case PIND: return pinlevel( a );
            case TCNT1L: temp = uint8_t( tcnt1 >> 8 ); return uint8_t( tcnt1 );
            case TCNT1H: return temp;
            case ICR1L: temp = uint8_t( icr1 >> 8 ); return uint8_t( icr1 );
            case ICR1H: return temp;
            case OCR1AL: return uint8_t( ocr1a ); case OCR1AH: return uint8_t( ocr1a >> 8 );
            case OCR1BL: return uint8_t( ocr1b ); case OCR1BH: return uint8_t( ocr1b >> 8 );
            case ADCL: adc_lock = true; return uint8_t( adc );
            case ADCH: adc_lock = false; return uint8_t( adc >> 8 );
            case ADCSRA: return uint8_t( ( io[ a ] & ~0x40 ) | ( adc_busy || ( !running && ( io[ a ] & 0x40 ) ) ? 0x40 : 0 ) );
            case EECR: { uint8_t v = io[ a ] & 0x38; if ( cyc < eempe_until ) v |= 4; if ( cyc < ee_busy_until ) v |= 2; return v; }
            case GTCCR: return uint8_t( io[ a ] & ( io[ a ] & 0x80 ? 0x83 : 0x80 ) );
            case TCCR0B: return io[ a ] & 0x0f;      // force bits read zero
            case TCCR1C: return 0;
        }
        return io[ a ];
    }
    std::function<uint8_t( uint16_t )> pins;                // external level of the input pins
    uint8_t pinlevel( uint16_t a ) { uint8_t ext = pins ? pins( a ) : io[ a ], ddr = io[ a + 1 ], port = io[ a + 2 ]; return uint8_t( ( ext & ~ddr ) | ( port & ddr ) ); }
    std::vector<std::pair<uint16_t, uint8_t>> forced;       // force-compare strobes
    void iowrite( uint16_t a, uint8_t v ) override
    {
        if ( w1c( a ) ) { io[ a ] &= uint8_t( ~( v & flagmask( a ) ) ); return; }
        switch ( a )
        {
            case PINB: case PINC: case PIND: io[ a + 2 ] ^= v; portchange( uint16_t( a + 2 ) ); return;
            case PORTB: case PORTC: case PORTD: io[ a ] = v; portchange( a ); return;
            case TCNT1H: case ICR1H: case OCR1AH: case OCR1BH: temp = v; return;
            case TCNT1L: tcnt1 = uint16_t( temp << 8 | v ); return;
            case ICR1L: icr1 = uint16_t( temp << 8 | v ); return;
            case OCR1AL: ocr1a = uint16_t( temp << 8 | v ); ocr1a_log.push_back( { cyc, ocr1a } ); return;
            case OCR1BL: ocr1b = uint16_t( temp << 8 | v ); return;
            case TCCR0B: if ( v & 0xc0 ) forced.push_back( { a, uint8_t( v & 0xc0 ) } ); io[ a ] = v & 0x0f; return;
            case TCCR1C: if ( v & 0xc0 ) forced.push_back( { a, uint8_t( v & 0xc0 ) } ); return;
            case TCCR1B: io[ a ] = v & 0xdf; return;
            case TCCR0A: case TCCR1A: io[ a ] = v & 0xf3; return;
            case ADCL: case ADCH: return;                                            // read only
            case ADMUX: io[ a ] = v & 0xef; return;
            case ADCSRB: io[ a ] = v & 0x47; return;
            case ADCSRA:
            {
                uint8_t flag = uint8_t( io[ a ] & 0x10 & ~( v & 0x10 ) ); bool was = io[ a ] & 0x80;
                io[ a ] = uint8_t( ( v & 0xaf ) | flag | ( io[ a ] & 0x40 ) | ( v & 0x40 ) );
                if ( !( v & 0x80 ) ) { adc_busy = false; adc_first = true; if ( running ) io[ a ] &= uint8_t( ~0x40 ); }
                else { if ( !was ) adc_first = true; if ( running && ( v & 0x40 ) && !adc_busy ) adc_start(); }
                return;
            }
            case ACSR: io[ a ] = uint8_t( ( v & 0xcf ) | ( io[ a ] & 0x20 ) | ( io[ a ] & 0x10 & ~( v & 0x10 ) ) ); return;
            case EEARH: io[ a ] = v & 3; if ( cyc < ee_busy_until ) breach( "EEAR changed while a write is in progress" ); return;
            case EEARL: case EEDR: if ( cyc < ee_busy_until ) breach( a == EEDR ? "EEDR changed while a write is in progress" : "EEAR changed while a write is in progress" ); io[ a ] = v; return;
            case EECR: eecr( v ); return;
            case TWCR: twcr( v ); return;
            case TWSR: io[ a ] = uint8_t( ( io[ a ] & 0xf8 ) | ( v & 3 ) ); return;
            case TWDR: if ( running && !( io[ TWCR ] & 0x80 ) ) { io[ TWCR ] |= 8; twi.fail_wcol = true; breach( "TWDR written while TWINT is low" ); return; } io[ a ] = v; return;
        }
        io[ a ] = v;
    }
    void iobit( uint16_t a, int bit, bool v ) override
    {
        uint8_t m = uint8_t( 1 << bit );
        if ( w1c( a ) ) { if ( v ) io[ a ] &= uint8_t( ~( m & flagmask( a ) ) ); return; }   // touches the one bit only
        if ( a == PINB || a == PINC || a == PIND ) { if ( v ) { io[ a + 2 ] ^= m; portchange( uint16_t( a + 2 ) ); } return; }
        if ( a == PORTB || a == PORTC || a == PORTD ) { if ( v ) io[ a ] |= m; else io[ a ] &= uint8_t( ~m ); portchange( a ); return; }
        if ( a == EECR ) { uint8_t cur = ioread( a ); eecr( v ? uint8_t( cur | m ) : uint8_t( cur & ~m ) ); return; }
        Cpu::iobit( a, bit, v );
    }
    bool ioprobe( uint16_t a, int bit ) override { return ioread( a ) >> bit & 1; }
    struct PortEv { uint64_t cyc; uint16_t addr; uint8_t val; }; std::vector<PortEv> ports; bool port_keep = false;
    void portchange( uint16_t a ) { if ( port_keep ) ports.push_back( { cyc, a, io[ a ] } ); }

    void eecr( uint8_t v )
    {
        bool master = cyc < eempe_until, busy = cyc < ee_busy_until; uint16_t ad = uint16_t( io[ EEARL ] | io[ EEARH ] << 8 );
        if ( !busy ) io[ EECR ] = v & 0x38; else io[ EECR ] = uint8_t( ( io[ EECR ] & 0x30 ) | ( v & 8 ) );
        if ( ( v & 2 ) && !busy )
        {
            if ( master ) { uint8_t d = io[ EEDR ]; int mode = v >> 4 & 3; if ( mode == 0 ) ee[ ad & 0x3ff ] = d; else if ( mode == 1 ) ee[ ad & 0x3ff ] = 0xff; else if ( mode == 2 ) ee[ ad & 0x3ff ] &= d; ee_writes.push_back( { ad, d } ); ee_busy_until = cyc + ee_time; eempe_until = 0; }
            // without EEMPE in the four cycles before, setting EEPE has no effect
        }
        if ( v & 4 ) { if ( cyc >= eempe_until && !( v & 2 ) ) eempe_until = cyc + ee_window; }
        if ( v & 1 ) { if ( busy ) breach( "EERE set while a write is in progress" ); else { io[ EEDR ] = ee[ ad & 0x3ff ]; ee_reads.push_back( { ad, io[ EEDR ] } ); cyc += 4; } }
    }

    // --- TWI master transmitter
    void twcr( uint8_t v )
    {
        uint8_t & c = io[ TWCR ]; bool en = v & 4; bool was_int = c & 0x80;
        if ( !running ) { c = uint8_t( ( v & 0x75 ) | ( was_int && !( v & 0x80 ) ? 0x80 : 0 ) | ( c & 8 ) ); return; }
        c = uint8_t( ( v & 0x75 ) | ( was_int && !( v & 0x80 ) ? 0x80 : 0 ) | ( c & 8 ) );
        if ( !en ) { twi.pending = 0; return; }
        if ( !( v & 0x80 ) ) { if ( ( v & 0x20 ) && !twi.pending && !was_int && twi.phase == 0 ) begin( 1 ); return; }
        if ( twi.pending ) { breach( "TWINT cleared while the hardware is still busy" ); return; }
        if ( v & 0x10 ) { twi.bus.push_back( "STOP" ); twi.phase = 0; io[ TWSR ] = uint8_t( ( io[ TWSR ] & 3 ) | 0xf8 ); twi.stop_done = cyc + 40; if ( v & 0x20 ) begin( 1 ); return; }
        if ( v & 0x20 ) { begin( 1 ); return; }
        if ( twi.phase == 0 ) { return; }
        begin( 2 );
    }
    void begin( int what )
    {
        twi.pending = what; unsigned l = twi.latency ? twi.latency() : 200; twi.done = cyc + l;
        uint8_t st; if ( what == 1 ) { st = twi.phase ? 0x10 : 0x08; twi.bus.push_back( twi.phase ? "RESTART" : "START" ); }
        else { uint8_t d = io[ TWDR ]; twi.bus.push_back( vm::fmt( "%s %02x", twi.phase == 1 ? "ADDR" : "DATA", d ) ); st = twi.phase == 1 ? ( d & 1 ? 0x40 : 0x18 ) : 0x28; }
        if ( twi.at < twi.script.size() ) { uint8_t s = twi.script[ twi.at++ ]; if ( s ) st = s & 0xf8; }   // 0: as it should be, 1: status zero
        twi.next = st;
    }
    // --- time
    void tick( unsigned n ) override
    {
        if ( !running ) return;
        if ( adc_busy && cyc >= adc_done ) adc_finish();
        if ( twi.pending && cyc >= twi.done )
        {
            io[ TWSR ] = uint8_t( ( io[ TWSR ] & 3 ) | twi.next ); io[ TWCR ] |= 0x80;
            twi.phase = twi.next == 0x38 ? 0 : twi.pending == 1 ? 1 : 2; twi.pending = 0;
        }
        if ( io[ TWCR ] & 0x10 && cyc >= twi.stop_done ) io[ TWCR ] &= uint8_t( ~0x10 );
        static const unsigned DIV[8] = { 0, 1, 8, 64, 256, 1024, 0, 0 };
        if ( unsigned d = DIV[ io[ TCCR0B ] & 7 ] )
        {
            t0_pre += n;
            while ( t0_pre >= d )
            {
                t0_pre -= d; ++t0_ticks; uint8_t & t = io[ TCNT0 ]; bool ctc = ( io[ TCCR0A ] & 3 ) == 2 && !( io[ TCCR0B ] & 8 );
                if ( ctc && t == io[ OCR0A ] ) t = 0; else { ++t; if ( t == 0 ) io[ TIFR0 ] |= 1; }
                if ( t == io[ OCR0A ] ) io[ TIFR0 ] |= 2;
                if ( t == io[ OCR0B ] ) io[ TIFR0 ] |= 4;
            }
        }
        if ( unsigned d = DIV[ io[ TCCR1B ] & 7 ] )
        {
            t1_pre += n; tcnt1 = uint16_t( tcnt1 + t1_pre / d ); t1_pre %= d; unsigned wgm = ( io[ TCCR1A ] & 3u ) | ( io[ TCCR1B ] >> 1 & 12u ); if ( wgm == 7 || wgm == 3 ) tcnt1 &= 0x3ff;
        }
    }
    int irq() override
    {
        // vector numbers from zero (data sheet table 16-1, minus one)
        uint8_t i0 = io[ TIFR0 ] & io[ TIMSK0 ], i1 = io[ TIFR1 ] & io[ TIMSK1 ], ie = io[ EIFR ] & io[ EIMSK ];
        if ( forced_irq >= 0 ) return forced_irq;
        if ( mute ) return -1;
        if ( ie & 1 ) return 1;
        if ( ie & 2 ) return 2;
        if ( i1 & 0x20 ) return 10;
        if ( i1 & 2 ) return 11;
        if ( i1 & 4 ) return 12;
        if ( i1 & 1 ) return 13;
        if ( i0 & 2 ) return 14;
        if ( i0 & 4 ) return 15;
        if ( i0 & 1 ) return 16;
        if ( ( io[ ADCSRA ] & 0x18 ) == 0x18 ) return 21;
        return -1;
    }
    bool mute = false; int forced_irq = -1; std::map<int, uint64_t> served;
    void ack( int v ) override
    {
        ++served[ v ]; if ( v == forced_irq ) { forced_irq = -1; return; }
        switch ( v ) { case 1: io[ EIFR ] &= 0xfe; break; case 2: io[ EIFR ] &= 0xfd; break; case 10: io[ TIFR1 ] &= 0xdf; break; case 11: io[ TIFR1 ] &= 0xfd; break; case 12: io[ TIFR1 ] &= 0xfb; break; case 13: io[ TIFR1 ] &= 0xfe; break;
                       case 14: io[ TIFR0 ] &= 0xfd; break; case 15: io[ TIFR0 ] &= 0xfb; break; case 16: io[ TIFR0 ] &= 0xfe; break; case 21: io[ ADCSRA ] &= 0xef; break; }
    }
};

} // namespace avr
#endif
