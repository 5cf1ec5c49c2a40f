// C34: atomic access never yields or leaves a torn value under interrupts.
#include "../emu/m328.hpp"
using avr::Board; using avr::M328;
static Board<M328> & board() { static Board<M328> b( avr::firmware() ); return b; }
enum { VEC = 14, BUSY = 0x3e };
struct Var { const char * name; int mode, size; };
static const Var VARS[] = { { "g16", 0, 2 }, { "g32", 1, 4 }, { "g64", 2, 8 }, { "g3", 3, 3 }, { "g6", 4, 6 }, { "gf", 5, 4 }, { "gi", 6, 2 }, { "gl", 7, 4 }, { "v16", 8, 2 }, { "v32", 9, 4 }, { "v64", 10, 8 }, { "vi", 11, 2 }, { "ga", 12, 2 } };
static std::string hex( uint8_t const * p, int n ) { std::string s; for ( int i = 0; i < n; ++i ) s += vm::fmt( "%02x", p[ i ] ); return s; }
static bool whole( uint8_t const * p, int n, uint8_t v ) { for ( int i = 0; i < n; ++i ) if ( p[ i ] != v ) return false; return true; }
// run f; the interrupt arrives 'at' instructions after the call's start. Reports whether the handler ran.
static bool run( std::string const & f, std::vector<Board<M328>::Arg> const & args, int at, int at2, bool & ran, std::string const & key )
{
    auto & b = board(); auto & m = b.m; int n = 0; uint64_t served = m.served[ VEC ];
    m.boundary = [&]( avr::Cpu & ) { if ( n == at || n == at2 ) m.forced_irq = VEC; ++n; };
    bool ok = b.call( f, args, 0x80 ); m.boundary = nullptr; ran = m.served[ VEC ] != served; bool in_time = n > at; m.forced_irq = -1;
    if ( !ok ) { vm::fail( "firmware:" + key, "%s: %s", f.c_str(), m.bad.c_str() ); return false; }
    if ( !( m.sreg & 0x80 ) ) vm::fail( "interrupts-left-off:" + key, "%s returns with interrupts disabled", f.c_str() );
    vm::event(); vm::distinct( vm::mix( vm::strhash( f.c_str() ), uint64_t( at ) * 1000 + uint64_t( at2 + 1 ) ) ); vm::counter( ran ? "interrupted-calls" : "uninterrupted-calls" );
    return in_time;
}
GROUP( variables, 13, 13 )
{
    Var const & v = VARS[ vm::st().idx % 13 ]; auto & b = board(); auto & m = b.m; std::string nm = v.name; uint16_t at_var = uint16_t( b.var( nm ) + ( nm == "ga" ? 4 : 0 ) ), seen = b.var( "seen" ), out = b.var( "out" ); int reps = vm::st().thorough ? 24 : 3;
    for ( int rep = 0; rep < reps; ++rep ) for ( const char * op : { "rd_", "wr_", "rw_" } ) for ( int at = 0; ; ++at )
    {
        b.reset(); m.io[ BUSY ] = 0; uint8_t a = uint8_t( g.next() ), w = uint8_t( g.next() ), nx = uint8_t( g.next() ); if ( a == w ) ++w; while ( nx == a || nx == w ) ++nx;
        for ( int i = 0; i < v.size; ++i ) b.mem( uint16_t( at_var + i ) ) = a; b.mem( b.var( "mode" ) ) = uint8_t( v.mode ); b.mem( b.var( "next" ) ) = nx; memset( &b.mem( seen ), 0x33, 8 ); bool ran;
        bool more = run( std::string( op ) + nm, { b.a8( w ) }, at, -1, ran, nm ); uint8_t * x = &b.mem( at_var ), * s = &b.mem( seen ), * o = &b.mem( out ); int n = v.size; bool wr = op[0] == 'w';
        auto torn = [&]( const char * what ) { vm::fail( std::string( "torn:" ) + op + nm, "%s%s interrupted before instruction %d: %s (initial %02x, written %02x, handler wrote %02x; variable %s, handler saw %s, returned %s)", op, v.name, at, what, a, w, nx, hex( x, n ).c_str(), hex( s, n ).c_str(), hex( o, n ).c_str() ); };
        if ( !ran ) { if ( wr ? !whole( x, n, w ) : op[1] == 'd' ? !whole( o, n, a ) || !whole( x, n, a ) : !whole( o, n, a ) || !whole( x, n, w ) ) torn( "wrong without interrupt" ); }
        else if ( wr ) { bool early = whole( s, n, a ) && whole( x, n, w ), late = whole( s, n, w ) && whole( x, n, nx ); if ( !early && !late ) torn( "torn write" ); }
        else if ( op[1] == 'd' ) { if ( !whole( s, n, a ) || !whole( x, n, nx ) || ( !whole( o, n, a ) && !whole( o, n, nx ) ) ) torn( "torn read" ); }
        else
        {   // read, then write: handler before both, between, or after
            bool before = whole( s, n, a ) && whole( o, n, nx ) && whole( x, n, w ), mid = whole( s, n, a ) && whole( o, n, a ) && whole( x, n, w ), after = whole( s, n, w ) && whole( o, n, a ) && whole( x, n, nx );
            if ( !before && !mid && !after ) torn( "torn read or write" );
        }
        if ( !more ) break;
    }
    vm::sample( "%s (%d bytes) read, written and both, interrupted at every instruction", v.name, v.size );
}
// a value of another type than the variable: converted, and stored whole
GROUP( mixed_types, 17, 170 )
{
    struct X { const char * var, * t; int mode, size, vsize; bool sgn; };
    static const X XS[] = { { "g16", "u8", 0, 2, 1, 0 }, { "g16", "i8", 0, 2, 1, 1 }, { "g16", "u32", 0, 2, 4, 0 }, { "g32", "u8", 1, 4, 1, 0 }, { "g32", "i8", 1, 4, 1, 1 }, { "g32", "u16", 1, 4, 2, 0 }, { "g32", "i16", 1, 4, 2, 1 }, { "v16", "u8", 8, 2, 1, 0 }, { "v32", "u8", 9, 4, 1, 0 }, { "v32", "i16", 9, 4, 2, 1 }, { "gi", "u8", 6, 2, 1, 0 }, { "gi", "i8", 6, 2, 1, 1 }, { "gl", "i8", 7, 4, 1, 1 }, { "gl", "u16", 7, 4, 2, 0 }, { "v64", "u8", 10, 8, 1, 0 }, { "g64", "i16", 2, 8, 2, 1 }, { "vi", "i8", 11, 2, 1, 1 } };
    X const & v = XS[ vm::st().idx % 17 ]; auto & b = board(); auto & m = b.m; std::string f = std::string( "mx_" ) + v.var + "_" + v.t; uint16_t at_var = b.var( v.var ), seen = b.var( "seen" );
    for ( int rep = 0; rep < 4; ++rep ) for ( int at = 0; ; ++at )
    {
        uint32_t val = uint32_t( g.next() ) & ( v.vsize == 1 ? 0xff : v.vsize == 2 ? 0xffff : 0xffffffff ); uint64_t conv = val; if ( v.sgn ) conv = v.vsize == 1 ? uint64_t( int64_t( int8_t( val ) ) ) : uint64_t( int64_t( int16_t( val ) ) ); uint8_t w[8]; for ( int i = 0; i < 8; ++i ) w[ i ] = uint8_t( conv >> 8 * i );
        uint8_t a = uint8_t( g.next() ), nx = uint8_t( g.next() ); auto used = [&]( uint8_t c ) { for ( auto x : w ) if ( x == c ) return true; return false; }; while ( used( a ) ) ++a; while ( used( nx ) || nx == a ) ++nx;
        b.reset(); for ( int i = 0; i < v.size; ++i ) b.mem( uint16_t( at_var + i ) ) = a; b.mem( b.var( "mode" ) ) = uint8_t( v.mode ); b.mem( b.var( "next" ) ) = nx; memset( &b.mem( seen ), 0x33, 8 ); bool ran;
        Board<M328>::Arg arg = v.vsize == 1 ? b.a8( uint8_t( val ) ) : v.vsize == 2 ? b.a16( uint16_t( val ) ) : b.a32( val ); bool more = run( f, { arg }, at, -1, ran, f ); uint8_t * x = &b.mem( at_var ), * s = &b.mem( seen ); int n = v.size; bool is_w = !memcmp( x, w, size_t( n ) ), saw_w = !memcmp( s, w, size_t( n ) );
        if ( ran ? !( whole( s, n, a ) && is_w ) && !( saw_w && whole( x, n, nx ) ) : !is_w ) vm::fail( "torn:" + f, "%s( %x ) interrupted before instruction %d: the variable was %02x in every byte and is %s, the handler saw %s and wrote %02x", f.c_str(), val, at, a, hex( x, n ).c_str(), hex( s, n ).c_str(), nx );
        if ( !more ) break;
    }
    // registers: the high byte written is that of the converted value
    for ( uint8_t val : { uint8_t( 0 ), uint8_t( 255 ), uint8_t( g.next() ) } ) { b.reset(); m.ocr1a = uint16_t( g.next() ); m.tcnt1 = uint16_t( g.next() ); m.temp = uint8_t( g.next() ); bool ok = b.call( "mx_ocr1a_u8", { b.a8( val ) }, 0x80 ) && b.call( "mx_tcnt1_u8", { b.a8( val ) }, 0x80 ); if ( !ok || m.ocr1a != val || m.tcnt1 != val ) vm::fail( "register-narrow-value", "writing the byte %02x leaves OCR1A %04x, TCNT1 %04x", val, m.ocr1a, m.tcnt1 ); vm::event(); }
    for ( int on = 0; on < 2; ++on )
    {
        b.reset(); uint32_t val = uint32_t( g.next() ); bool ok = b.call( "mx_v8_u16", { b.a16( uint16_t( val ) ) }, uint8_t( on << 7 ) ); uint8_t r = b.mem( b.var( "v8" ) ); bool flag = m.sreg >> 7; bool touched = false; for ( auto & e : m.log ) touched |= e.addr == 0x5f && e.kind != 'r';
        if ( !ok || r != uint8_t( val ) ) vm::fail( "byte-value:mx_v8_u16", "storing %04x in a byte leaves %02x", val & 0xffff, r ); if ( flag != bool( on ) || touched ) vm::fail( "byte-disables-interrupts:mx_v8_u16", "storing a wide value in one byte touches the interrupt flag" );
        ok = b.call( "mx_g8_u32", { b.a32( val ) }, uint8_t( on << 7 ) ); if ( !ok || b.mem( b.var( "g8" ) ) != uint8_t( val ) || ( m.sreg >> 7 ) != on ) vm::fail( "byte-value:mx_g8_u32", "storing %08x in a byte leaves %02x, interrupt flag %d", val, b.mem( b.var( "g8" ) ), m.sreg >> 7 ); vm::event();
    }
}
GROUP( registers16, 10, 200 )
{
    auto & b = board(); auto & m = b.m; uint16_t seen = b.var( "seen" ), out = b.var( "out" );
    struct R { const char * f; int mode; char kind; };
    static const R RS[] = { { "rd_ocr1a", 20, 'r' }, { "wr_ocr1a", 20, 'w' }, { "wr_ocr1a", 21, 'x' }, { "wr_ocr1a", 22, 'x' }, { "wr_ocr1a", 23, 'x' }, { "wr_ocr1a", 24, 'x' }, { "wr_ocr1b", 20, 'b' }, { "rd_tcnt1", 21, 't' }, { "rd_tcnt1", 22, 't' }, { "rd_tcnt1", 24, 't' }, { "rd_icr1", 23, 'i' }, { "rd_icr1", 21, 'i' }, { "rd_icr1", 24, 'i' }, { "wr_tcnt1", 24, 'c' }, { "wr_ocr1a16", 20, 'W' }, { "pwm", 20, 'W' }, { "pwm", 21, 'W' }, { "pwm", 24, 'W' } };
    for ( auto & r : RS ) for ( int at = 0; ; ++at )
    {
        b.reset(); uint8_t nx = uint8_t( g.next() ), w = uint8_t( g.next() ); if ( nx == w ) ++w; uint16_t w16 = r.kind == 'W' ? uint16_t( g.next() ) : uint16_t( w * 257u ), a = uint16_t( g.next() ), t = uint16_t( g.next() ), ic = uint16_t( g.next() ), ob = uint16_t( g.next() ), n16 = uint16_t( nx * 257u );
        m.ocr1a = a; m.ocr1b = ob; m.tcnt1 = t; m.icr1 = ic; m.temp = uint8_t( g.next() ); b.mem( b.var( "mode" ) ) = uint8_t( r.mode ); b.mem( b.var( "next" ) ) = nx; memset( &b.mem( seen ), 0x33, 8 ); memset( &b.mem( out ), 0, 8 ); bool ran;
        std::string key = vm::fmt( "%s-%d", r.f, r.mode ); bool more = run( r.f, { r.kind == 'W' ? b.a16( w16 ) : b.a8( w ) }, at, -1, ran, key );
        uint16_t s = b.get<uint16_t>( seen ), o = b.get<uint16_t>( out ); bool ok = true;
        switch ( r.kind )
        {
            case 'r': ok = ran ? s == a && m.ocr1a == n16 && ( o == a || o == n16 ) : o == a && m.ocr1a == a; break;
            case 'w': ok = ran ? ( s == a && m.ocr1a == w16 ) || ( s == w16 && m.ocr1a == n16 ) : m.ocr1a == w16; break;
            case 'x': ok = m.ocr1a == w16 && ( r.mode != 22 || !ran || m.ocr1b == n16 ) && ( ( r.mode != 21 && r.mode != 24 ) || !ran || s == t ) && ( r.mode != 23 || !ran || s == ic ) && ( r.mode != 24 || !ran || m.tcnt1 == n16 ); break;
            case 'b': ok = m.ocr1b == w16 && ( !ran || ( s == a && m.ocr1a == n16 ) ); break;
            case 't': ok = ( o == t || ( r.mode == 24 && ran && o == n16 ) ) && ( r.mode == 22 || !ran || s == t ) && ( r.mode != 22 || !ran || m.ocr1b == n16 ) && ( r.mode != 24 || !ran || m.tcnt1 == n16 ); break;
            case 'i': ok = o == ic && ( r.mode != 23 || !ran || s == ic ) && ( r.mode == 23 || !ran || s == t ); break;
            case 'c': ok = ran ? ( s == t && m.tcnt1 == w16 ) || ( s == w16 && m.tcnt1 == n16 ) : m.tcnt1 == w16; break;
            case 'W': ok = r.mode == 20 ? ( ran ? ( s == a && m.ocr1a == w16 ) || ( s == w16 && m.ocr1a == n16 ) : m.ocr1a == w16 ) : m.ocr1a == w16 && ( !ran || s == t ); break;
        }
        if ( !ok ) vm::fail( "torn:" + key, "%s interrupted before instruction %d: OCR1A %04x (was %04x), OCR1B %04x, TCNT1 %04x (was %04x), ICR1 %04x; written %04x, handler saw %04x and wrote %04x, returned %04x", r.f, at, m.ocr1a, a, m.ocr1b, m.tcnt1, t, ic, w16, s, n16, o );
        for ( auto & e : m.ocr1a_log ) if ( r.mode != 20 && e.second != w16 && r.kind != 'b' && r.kind != 't' && r.kind != 'i' ) vm::fail( "glitch:" + key, "OCR1A is given the value %04x on the way to %04x", e.second, w16 );
        if ( !more ) break;
    }
    // a running counter: the value read is one the counter had during the call
    for ( int k = 0; k < 200; ++k )
    {
        b.reset(); uint16_t t0 = uint16_t( g.p( .7 ) ? ( g.next() & 0xff00 ) - 1 - g.i( 0, 12 ) : g.next() ); m.tcnt1 = t0; int n = 0; m.boundary = [&]( avr::Cpu & ) { ++m.tcnt1; ++n; };
        bool ok = b.call( "rd_tcnt1", {}, 0x80 ); m.boundary = nullptr; uint16_t o = b.get<uint16_t>( out ); if ( !ok || uint16_t( o - t0 ) > n ) vm::fail( "torn:running-counter", "TCNT1 going from %04x to %04x is read as %04x", t0, m.tcnt1, o ); vm::event();
    }
}
GROUP( bytes, 60, 2000 )
{
    auto & b = board(); auto & m = b.m;
    struct B { const char * name; const char * var; }; static const B BS[] = { { "g8", "g8" }, { "v8", "v8" }, { "vb", "vb" }, { "ocr0a", nullptr } };
    for ( auto & x : BS ) for ( int on = 0; on < 2; ++on )
    {
        b.reset(); uint8_t a = uint8_t( g.next() ), w = uint8_t( g.next() ); if ( x.name[1] == 'b' ) a &= 1, w &= 1; if ( x.var ) b.mem( b.var( x.var ) ) = a; else m.io[0x47] = a; uint8_t s = uint8_t( on << 7 );
        auto quiet = [&]( const char * op ) { for ( auto & e : m.log ) if ( e.addr == 0x5f && e.kind != 'r' ) vm::fail( std::string( "byte-disables-interrupts:" ) + op + x.name, "single-byte access touches the interrupt flag:%s", avr::logstr( m.log ).c_str() ); if ( ( m.sreg >> 7 ) != on ) vm::fail( std::string( "byte-changes-interrupts:" ) + op + x.name, "single-byte access leaves the interrupt flag %d, it was %d", m.sreg >> 7, on ); };
        if ( !b.call( std::string( "r8_" ) + x.name, {}, s ) || b.ret8() != a ) vm::fail( std::string( "byte-value:r8_" ) + x.name, "reads %02x instead of %02x; %s", b.ret8(), a, m.bad.c_str() ); quiet( "r8_" );
        bool ok = b.call( std::string( "w8_" ) + x.name, { b.a8( w ) }, s ); uint8_t now = x.var ? b.mem( b.var( x.var ) ) : m.io[0x47]; if ( !ok || now != w ) vm::fail( std::string( "byte-value:w8_" ) + x.name, "leaves %02x instead of %02x; %s", now, w, m.bad.c_str() ); quiet( "w8_" );
        vm::distinct( vm::mix( vm::strhash( x.name ), uint64_t( a * 256 + w ) * 2 + uint64_t( on ) ) );
    }
}
// many accesses with an interrupt storm
GROUP( storm, 30, 1000 )
{
    auto & b = board(); auto & m = b.m; b.reset(); b.mem( b.var( "mode" ) ) = 9; uint16_t x = b.var( "v32" ), seen = b.var( "seen" ), nx = b.var( "next" ); uint8_t a = uint8_t( g.next() ); for ( int i = 0; i < 4; ++i ) b.mem( uint16_t( x + i ) ) = a; b.mem( nx ) = uint8_t( g.next() ); double rate = g.uni( .001, .2 ); bool torn = false; uint64_t served = 0, h = 0;
    m.boundary = [&]( avr::Cpu & c ) { if ( m.served[ VEC ] != served && ( c.sreg & 0x80 ) ) { served = m.served[ VEC ]; uint8_t * s = &c.ram[ seen ]; if ( !whole( s, 4, s[0] ) ) torn = true; h = vm::mix( h, c.ipc ); c.ram[ nx ] = uint8_t( g.next() ); } if ( ( c.sreg & 0x80 ) && g.p( rate ) ) m.forced_irq = VEC; };
    bool ok = b.call( "many", { b.a8( 250 ) }, 0x80 ); m.boundary = nullptr; m.forced_irq = -1; if ( !ok ) { vm::fail( "firmware:many", "%s", m.bad.c_str() ); return; }
    if ( torn || b.mem( b.var( "out" ) ) ) vm::fail( "torn:storm", "%u of 250 reads torn, handler saw a torn value: %d (%llu interrupts)", b.mem( b.var( "out" ) ), torn, (unsigned long long) m.served[ VEC ] );
    if ( !( m.sreg & 0x80 ) ) vm::fail( "interrupts-left-off:storm", "interrupts are disabled afterwards" );
    vm::counter( "storm-interrupts", m.served[ VEC ] ); vm::distinct( h );
}
// the same for variables that are not volatile, in loops where a compiler may move what it may move
GROUP( loops, 24, 480 )
{
    struct L { const char * name; int mode, size; }; static const L LS[] = { { "g16", 0, 2 }, { "g32", 1, 4 }, { "g64", 2, 8 }, { "g3", 3, 3 }, { "g6", 4, 6 }, { "gl", 7, 4 }, { "v16", 8, 2 }, { "v64", 10, 8 } }; auto const & l = LS[ vm::st().idx % 8 ]; int n = l.size;
    auto & b = board(); auto & m = b.m; uint16_t x = b.var( l.name ), seen = b.var( "seen" ), nx = b.var( "next" ), out = b.var( "out" );
    for ( const char * op : { "many_", "reads_", "writes_" } )
    {
        b.reset(); b.mem( b.var( "mode" ) ) = uint8_t( l.mode ); uint8_t a = uint8_t( g.next() ); for ( int i = 0; i < n; ++i ) b.mem( uint16_t( x + i ) ) = a; b.mem( nx ) = uint8_t( g.next() ); memset( &b.mem( out ), 0x77, 8 ); double rate = g.uni( .002, .1 ); bool torn = false; uint64_t served = m.served[ VEC ], first = served, h = 0; uint8_t last = a, s8[8] = {};
        m.boundary = [&]( avr::Cpu & c ) { if ( m.served[ VEC ] != served && ( c.sreg & 0x80 ) ) { served = m.served[ VEC ]; uint8_t * s = &c.ram[ seen ]; if ( !whole( s, n, s[0] ) && !torn ) { torn = true; memcpy( s8, s, 8 ); } h = vm::mix( h, c.ipc ); last = c.ram[ nx ]; c.ram[ nx ] = uint8_t( g.next() ); } if ( ( c.sreg & 0x80 ) && g.p( rate ) ) m.forced_irq = VEC; };
        std::string f = std::string( op ) + l.name; bool ok = b.call( f, { b.a8( uint8_t( g.i( 40, 120 ) ) ) }, 0x80 ); m.boundary = nullptr; m.forced_irq = -1; if ( !ok ) { vm::fail( "firmware:" + f, "%s", m.bad.c_str() ); continue; }
        uint8_t * v = &b.mem( x ); if ( torn || !whole( v, n, v[0] ) || b.mem( out ) ) vm::fail( "torn:" + f, "under %llu interrupts: torn reads %u, handler saw %s, variable finally %s", (unsigned long long) ( m.served[ VEC ] - first ), b.mem( out ), torn ? hex( s8, n ).c_str() : "whole values", hex( v, n ).c_str() );
        if ( op[0] == 'r' && served != first && v[0] != last && served == m.served[ VEC ] ) vm::fail( "lost-write:" + f, "only the handler writes the variable, last %02x, yet it is %s", last, hex( v, n ).c_str() );
        if ( !( m.sreg & 0x80 ) ) vm::fail( "interrupts-left-off:" + f, "interrupts are disabled afterwards" ); vm::counter( "loop-interrupts", m.served[ VEC ] - first ); vm::distinct( h ); vm::event();
    }
    // a plain store before an atomic one, an atomic read between two atomic writes: the order of the program, interrupted anywhere
    std::string f = std::string( "flush_" ) + l.name; for ( int at = 0; ; ++at )
    {
        b.reset(); b.mem( b.var( "mode" ) ) = uint8_t( l.mode ); uint8_t a = uint8_t( g.next() ), k = uint8_t( a + 10 + g.i( 0, 200 ) ), w; do w = uint8_t( g.next() ); while ( w == a || uint8_t( w - k ) < 3 ); for ( int i = 0; i < n; ++i ) b.mem( uint16_t( x + i ) ) = a; b.mem( nx ) = w; memset( &b.mem( seen ), 0x33, 8 ); memset( &b.mem( out ), 0x77, 8 ); bool ran; bool more = run( f, { b.a8( k ) }, at, -1, ran, f );
        uint8_t * v = &b.mem( x ), * s = &b.mem( seen ), * o = &b.mem( out ); uint8_t k1 = uint8_t( k + 1 ), k2 = uint8_t( k + 2 );
        bool good = !ran ? whole( o, n, k1 ) && whole( v, n, k2 ) : ( whole( o, n, k1 ) && whole( v, n, k2 ) ) || ( whole( s, n, k1 ) && whole( o, n, w ) && whole( v, n, k2 ) ) || ( whole( s, n, k1 ) && whole( o, n, k1 ) && whole( v, n, k2 ) ) || ( whole( s, n, k2 ) && whole( o, n, k1 ) && whole( v, n, w ) );
        if ( !good ) vm::fail( "torn:" + f, "interrupted before instruction %d: initial %02x, writes %02x (plain), %02x, %02x (atomic), handler %02x; handler saw %s, program read %s, variable finally %s", at, a, k, k1, k2, w, hex( s, n ).c_str(), hex( o, n ).c_str(), hex( v, n ).c_str() );
        if ( !more ) break;
    }
}
VMON_MAIN
