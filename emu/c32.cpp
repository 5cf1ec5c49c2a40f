// C32: every peripheral setting reads back as set.
#include "../emu/m328.hpp"
using avr::Board; using avr::Cpu; using avr::M328;
static Board<Cpu> & board() { static Board<Cpu> b( avr::firmware() ); return b; }
struct Set { const char * name; unsigned max, addr, hi, lo; char kind; };
static const Set SETS[] = {
#define S( n, t, max, a, hi, lo ) { #n, max, a, hi, lo, 's' },
#define X( n, s, g, max, a, hi, lo ) { #n, max, a, hi, lo, 's' },
#define O( n, s, g, a, b ) { #n, 1, a, b, b, 'o' },
#define R( n, g, a, hi, lo ) { #n, ( 2u << ( hi - lo ) ) - 1, a, hi, lo, 'r' },
#define V( e, c )
#include "../common/c32.def"
};
#undef S
#undef X
#undef O
#undef R
#undef V
#define S( ... )
#define X( ... )
#define O( ... )
#define R( ... )
#define V( e, c ) { #e, c },
static const struct { const char * name; unsigned code; } CODES[] = {
#include "../common/c32.def"
};
enum : unsigned { NSET = sizeof SETS / sizeof *SETS, NCODE = sizeof CODES / sizeof *CODES };
// register contents after a setting
static void expect( Set const & s, uint8_t * io, unsigned v )
{
    std::string n = s.name;
    if ( n == "tc0_waveform" ) { io[0x44] = uint8_t( ( io[0x44] & ~3 ) | ( v & 3 ) ); io[0x45] = uint8_t( ( io[0x45] & ~8 ) | ( v & 4 ) << 1 ); return; }
    if ( n == "tc1_waveform" ) { io[0x80] = uint8_t( ( io[0x80] & ~3 ) | ( v & 3 ) ); io[0x81] = uint8_t( ( io[0x81] & ~0x18 ) | ( v & 12 ) << 1 ); return; }
    if ( s.kind == 'o' ) v = 1;
    unsigned mask = ( ( 2u << ( s.hi - s.lo ) ) - 1 ) << s.lo, old = unsigned( io[ s.addr ] | io[ s.addr + 1 ] << 8 ), now = ( old & ~mask ) | ( v << s.lo & mask ); io[ s.addr ] = uint8_t( now ); io[ s.addr + 1 ] = uint8_t( now >> 8 );
}
static unsigned value( Set const & s, uint8_t const * io )
{
    std::string n = s.name;
    if ( n == "tc0_waveform" ) return ( io[0x44] & 3u ) | ( io[0x45] >> 1 & 4u );
    if ( n == "tc1_waveform" ) return ( io[0x80] & 3u ) | ( io[0x81] >> 1 & 12u );
    return ( unsigned( io[ s.addr ] | io[ s.addr + 1 ] << 8 ) >> s.lo ) & ( ( 2u << ( s.hi - s.lo ) ) - 1 );
}
static void same( const char * what, Set const & s, unsigned v, uint8_t const * want, uint8_t const * old )
{
    auto & m = board().m;
    for ( unsigned a = 0x20; a < 256; ++a ) if ( a != 0x4b && ( a < 0x5d || a > 0x5f ) && m.io[ a ] != want[ a ] )
        vm::fail( std::string( what ) + ":" + s.name, "set( %s, %u ) with register 0x%02x = 0x%02x leaves 0x%02x instead of 0x%02x", s.name, v, a, old[ a ], m.io[ a ], want[ a ] );
}
static bool getter( Set const & s, uint8_t const * io )
{
    auto & b = board(); auto & m = b.m; uint8_t before[256]; memcpy( before, m.io, 256 );
    if ( !b.call( std::string( "cu_" ) + s.name ) ) { vm::fail( std::string( "firmware:" ) + s.name, "%s", m.bad.c_str() ); return false; }
    unsigned got = b.ret16(), want = value( s, io ); 
    if ( s.kind == 'o' || ( s.max == 1 && s.hi == s.lo ) ) got = got != 0;      // yes-or-no settings: any non-zero is yes
    if ( got != want ) { vm::fail( std::string( "reads-back:" ) + s.name, "current( %s ) is %u instead of %u", s.name, got, want ); return false; }
    for ( unsigned a = 0x20; a < 256; ++a ) if ( m.io[ a ] != before[ a ] && ( a < 0x5d || a > 0x5f ) ) vm::fail( std::string( "getter-changes:" ) + s.name, "current( %s ) changes register 0x%02x", s.name, a );
    return true;
}
GROUP( values, NSET, NSET )
{
    Set const & s = SETS[ vm::st().idx % NSET ]; auto & b = board(); auto & m = b.m; b.reset(); vm::counter( "settings" );
    int rounds = vm::st().thorough ? 400 : 30; if ( s.max > 255 ) rounds *= 3;
    for ( int k = 0; k < rounds; ++k )
    {
        for ( unsigned v = 0; v <= s.max; v += s.max > 255 ? 1 + unsigned( g.next() % 4000 ) : s.max > 15 ? 1 + unsigned( g.next() % 16 ) : 1 )
        {
            for ( int a = 0x20; a < 256; ++a ) m.io[ a ] = uint8_t( g.next() );
            uint8_t old[256], want[256]; memcpy( old, m.io, 256 ); memcpy( want, old, 256 );
            if ( s.kind != 'r' )
            {
                expect( s, want, v ); if ( !b.call( std::string( "st_" ) + s.name, { b.a16( v ) } ) ) { vm::fail( std::string( "firmware:" ) + s.name, "%s", m.bad.c_str() ); return; }
                same( "only-its-fields", s, v, want, old );
            }
            if ( !getter( s, want ) ) return;
            vm::distinct( vm::mix( vm::mix( vm::strhash( s.name ), v ), old[ s.addr ] ) ); vm::event();
        }
    }
    vm::sample( "%s: 0x%02x bits %u..%u, values 0..%u", s.name, s.addr, s.hi, s.lo, s.max );
}
GROUP( codes, NCODE, NCODE )
{
    auto & c = CODES[ vm::st().idx % NCODE ]; auto & b = board(); b.reset();
    if ( !b.call( "code", { b.a8( unsigned( vm::st().idx % NCODE ) ) } ) || b.ret8() != c.code ) vm::fail( std::string( "code:" ) + c.name, "%s has code %u, the device's is %u", c.name, b.ret8(), c.code );
    vm::distinct( vm::strhash( c.name ) );
}
// histories: after any sequence of settings every setting still has the value given to it last
GROUP( histories, 150, 6000 )
{
    auto & b = board(); auto & m = b.m; b.reset(); for ( int a = 0x20; a < 256; ++a ) m.io[ a ] = uint8_t( g.next() );
    uint8_t model[256]; memcpy( model, m.io, 256 ); std::map<unsigned, unsigned> last; int n = int( g.i( 5, 60 ) ); uint64_t h = 0;
    for ( int k = 0; k < n; ++k )
    {
        unsigned i = unsigned( g.next() % NSET ); Set const & s = SETS[ i ]; if ( s.kind == 'r' ) { if ( !getter( s, model ) ) return; continue; }
        unsigned v = unsigned( g.next() % ( s.max + 1u ) ); uint8_t old[256]; memcpy( old, model, 256 ); expect( s, model, v ); if ( s.kind == 's' ) last[ i ] = v;
        if ( !b.call( std::string( "st_" ) + s.name, { b.a16( v ) } ) ) { vm::fail( std::string( "firmware:" ) + s.name, "%s", m.bad.c_str() ); return; }
        same( "only-its-fields", s, v, model, old ); h = vm::mix( h, i * 65536 + v ); vm::event();
    }
    for ( auto & l : last ) if ( value( SETS[ l.first ], model ) == l.second ) getter( SETS[ l.first ], model );
    vm::distinct( h );
}
// the three registers that hold an interrupt flag, cleared by writing one, next to settings
static Board<M328> & device() { static Board<M328> b( avr::firmware() ); return b; }
GROUP( pending, 40, 400 )
{
    static const struct { unsigned addr, flag; const char * name; } REGS[] = { { 0x7a, 0x10, "ADCSRA" }, { 0x50, 0x10, "ACSR" }, { 0xbc, 0x80, "TWCR" } };
    auto & b = device(); auto & m = b.m; b.reset();
    for ( auto & r : REGS ) for ( auto & s : SETS )
    {
        if ( s.addr != r.addr || s.kind != 's' ) continue;
        for ( int pend = 0; pend < 2; ++pend )
        {
            unsigned v = unsigned( g.next() % ( s.max + 1u ) ); uint8_t old = uint8_t( g.next() & 0x2f & ~( 1u << s.lo ) ); if ( r.addr == 0xbc ) old &= 0x75; old = uint8_t( ( old & ~r.flag ) | ( pend ? r.flag : 0 ) ); m.io[ r.addr ] = old;
            if ( !b.call( std::string( "st_" ) + s.name, { b.a16( v ) } ) ) { vm::fail( std::string( "firmware:" ) + s.name, "%s", m.bad.c_str() ); return; }
            bool now = m.io[ r.addr ] & r.flag;
            if ( pend && !now ) vm::fail( std::string( "pending-flag-lost:" ) + r.name, "set( %s, %u ) on %s = 0x%02x clears the pending interrupt flag", s.name, v, r.name, old );
            if ( !pend && now ) vm::fail( std::string( "flag-raised:" ) + r.name, "set( %s, %u ) raises the interrupt flag", s.name, v );
            unsigned mask = ( ( 2u << ( s.hi - s.lo ) ) - 1 ) << s.lo, want = ( old & ~mask ) | v << s.lo; if ( ( m.io[ r.addr ] ^ want ) & ~r.flag & 0xff ) vm::fail( std::string( "only-its-fields-device:" ) + s.name, "set( %s, %u ) on %s = 0x%02x leaves 0x%02x", s.name, v, r.name, old, m.io[ r.addr ] );
            vm::distinct( vm::mix( vm::mix( vm::strhash( s.name ), v ), old + 0x10000 ) );
        }
    }
}
VMON_MAIN
