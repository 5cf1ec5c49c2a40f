// C33: clearing an interrupt flag clears that flag and only that flag.
#include "../emu/m328.hpp"
using avr::Board; using avr::M328;
static Board<M328> & board() { static Board<M328> b( avr::firmware() ); return b; }
struct Flag { const char * name; unsigned addr, bit, flags, config; };   // flags: all w1c flags of the register; config: the bits that software may set
static const Flag FLAGS[] = {
    { "int0", 0x3c, 0, 3, 0 }, { "int1", 0x3c, 1, 3, 0 }, { "pc0", 0x3b, 0, 7, 0 }, { "pc1", 0x3b, 1, 7, 0 }, { "pc2", 0x3b, 2, 7, 0 }, { "tc0a", 0x35, 1, 7, 0 }, { "tc0b", 0x35, 2, 7, 0 }, { "tc0o", 0x35, 0, 7, 0 },
    { "tc1a", 0x36, 1, 0x27, 0 }, { "tc1b", 0x36, 2, 0x27, 0 }, { "tc1o", 0x36, 0, 0x27, 0 }, { "tc1c", 0x36, 5, 0x27, 0 }, { "ac", 0x50, 4, 0x10, 0xcf }, { "adc", 0x7a, 4, 0x10, 0xaf }, { "twi", 0xbc, 7, 0x80, 0x75 } };
enum { NF = 15 };

GROUP( flags, 30, 30 )
{
    Flag const & f = FLAGS[ vm::st().idx % NF ]; std::string pre = vm::st().idx % 30 >= NF ? "b" : "", name = pre + f.name; auto & b = board(); auto & m = b.m; b.reset(); uint8_t bit = uint8_t( 1 << f.bit ); vm::counter( "flags" );
    for ( int rep = 0; rep < ( vm::st().thorough ? 60 : 4 ); ++rep ) for ( unsigned v = 0; v < 256; ++v )
    {
        if ( v & ~( f.flags | f.config ) ) continue;
        for ( int a = 0x20; a < 256; ++a ) m.io[ a ] = uint8_t( g.next() );
        m.io[0x35] &= 7; m.io[0x36] &= 0x27; m.io[0x3b] &= 7; m.io[0x3c] &= 3; m.io[0x50] &= 0xff; m.io[ f.addr ] = uint8_t( v ); m.forced.clear(); m.protocol.clear();
        uint8_t old[256]; memcpy( old, m.io, 256 );
        auto others = [&]( const char * what, uint8_t want )
        {
            if ( m.io[ f.addr ] != want ) vm::fail( std::string( what ) + ":" + name, "%s of %s with register 0x%02x = 0x%02x leaves 0x%02x instead of 0x%02x", what, name.c_str(), f.addr, v, m.io[ f.addr ], want );
            for ( unsigned a = 0x20; a < 256; ++a ) if ( a != f.addr && a != 0x4b && m.io[ a ] != old[ a ] && ( a < 0x5d || a > 0x5f ) ) vm::fail( std::string( "other-register:" ) + name, "%s of %s changes register 0x%02x from 0x%02x to 0x%02x", what, name.c_str(), a, old[ a ], m.io[ a ] );
        };
        if ( !b.call( "get_" + name ) ) { vm::fail( "firmware:" + name, "%s", m.bad.c_str() ); return; }
        if ( b.ret8() != ( v & bit ? 1 : 0 ) ) vm::fail( "read:" + name, "flag %s with register 0x%02x = 0x%02x reads %u", name.c_str(), f.addr, v, b.ret8() );
        others( "read-clears", uint8_t( v ) );
        if ( !b.call( "clr_" + name ) ) { vm::fail( "firmware:" + name, "%s", m.bad.c_str() ); return; }
        others( "clear", uint8_t( v & ~bit ) );
        memcpy( m.io, old, 256 );
        if ( !b.call( "gcg_" + name ) ) { vm::fail( "firmware:" + name, "%s", m.bad.c_str() ); return; }
        if ( b.ret8() != ( v & bit ? 2 : 0 ) ) vm::fail( "read-clear-read:" + name, "reading, clearing and reading %s with 0x%02x gives %u", name.c_str(), v, b.ret8() );
        others( "clear-if-set", uint8_t( v & ~bit ) );
        vm::distinct( vm::mix( vm::strhash( name.c_str() ), v * 65536 + old[0x7a] ) ); vm::event();
    }
    vm::sample( "%s (0x%02x bit %u) for all combinations of 0x%02x", name.c_str(), f.addr, f.bit, f.flags | f.config );
}
// another flag is raised by the hardware at any point while one is being cleared: it must stay pending
GROUP( races, 400, 8000 )
{
    Flag const & f = FLAGS[ g.next() % 12 ]; std::string name = ( g.p( .5 ) ? "b" : "" ) + std::string( f.name ); auto & b = board(); auto & m = b.m; uint8_t bit = uint8_t( 1 << f.bit );
    for ( int at = 0; at < 24; ++at )
    {
        b.reset(); uint8_t raise = uint8_t( g.next() & f.flags & ~( g.p( .5 ) ? bit : 0 ) ), v = uint8_t( ( g.next() & f.flags ) | bit ); unsigned other = g.p( .3 ) ? FLAGS[ g.next() % 12 ].addr : f.addr; uint8_t raise2 = other == f.addr ? 0 : uint8_t( g.next() & M328::flagmask( uint16_t( other ) ) ); m.io[ f.addr ] = v; if ( other != f.addr ) m.io[ other ] = 0;
        int n = 0; m.boundary = [&]( avr::Cpu & c ) { if ( n++ == at ) { c.io[ f.addr ] |= raise; if ( other != f.addr ) c.io[ other ] |= raise2; } };
        bool ok = b.call( "clr_" + name ); m.boundary = nullptr; if ( !ok ) { vm::fail( "firmware:" + name, "%s", m.bad.c_str() ); return; } if ( n <= at ) { break; }
        uint8_t want = uint8_t( ( v & ~bit ) | raise ), either = raise & bit;   // the flag itself may come back, before or after it is cleared
        if ( ( m.io[ f.addr ] | either ) != want || ( other != f.addr && m.io[ other ] != raise2 ) ) vm::fail( "lost-in-race:" + name, "clearing %s (0x%02x) while the hardware raises 0x%02x after %d instructions leaves 0x%02x", name.c_str(), v, raise, at, m.io[ f.addr ] );
        vm::distinct( vm::mix( vm::strhash( name.c_str() ), uint64_t( at ) * 65536 + v * 256u + raise ) ); vm::event();
    }
}
// a flag that is read while it and others are raised stays pending, and so do the others
GROUP( read_races, 200, 4000 )
{
    Flag const & f = FLAGS[ g.next() % NF ]; std::string name = ( g.p( .5 ) ? "b" : "" ) + std::string( f.name ); auto & b = board(); auto & m = b.m; uint8_t bit = uint8_t( 1 << f.bit );
    for ( int at = 0; at < 24; ++at )
    {
        b.reset(); uint8_t raise = uint8_t( g.next() & f.flags ), v = uint8_t( g.next() & ( f.flags | f.config ) ); m.io[ f.addr ] = v; int n = 0; m.boundary = [&]( avr::Cpu & c ) { if ( n++ == at ) c.io[ f.addr ] |= raise; };
        bool ok = b.call( "get_" + name ); m.boundary = nullptr; if ( !ok ) { vm::fail( "firmware:" + name, "%s", m.bad.c_str() ); return; } if ( n <= at ) break; bool was = v & bit, now = ( v | raise ) & bit;
        if ( m.io[ f.addr ] != ( v | raise ) ) vm::fail( "lost-in-read:" + name, "reading %s (0x%02x) while the hardware raises 0x%02x after %d instructions leaves 0x%02x", name.c_str(), v, raise, at, m.io[ f.addr ] );
        if ( was == now && b.ret8() != was ) vm::fail( "read:" + name, "flag %s with register 0x%02x = 0x%02x, 0x%02x raised meanwhile, reads %u", name.c_str(), f.addr, v, raise, b.ret8() );
        vm::distinct( vm::mix( vm::strhash( name.c_str() ), uint64_t( at ) * 65536 + v * 256u + raise + 1 ) ); vm::event();
    }
}
// histories of raising, reading and clearing over all registers against a model
GROUP( histories, 200, 8000 )
{
    auto & b = board(); auto & m = b.m; b.reset(); for ( int a = 0x20; a < 256; ++a ) m.io[ a ] = 0; uint8_t model[256]; memcpy( model, m.io, 256 ); uint64_t h = 0;
    for ( auto & f : FLAGS ) if ( f.config ) model[ f.addr ] = m.io[ f.addr ] = uint8_t( g.next() & f.config );
    for ( int k = int( g.i( 5, 60 ) ); k--; )
    {
        Flag const & f = FLAGS[ g.next() % NF ]; uint8_t bit = uint8_t( 1 << f.bit ); std::string name = ( g.p( .5 ) ? "b" : "" ) + std::string( f.name ); int what = int( g.i( 0, 3 ) );
        if ( what <= 1 ) { model[ f.addr ] |= bit; m.io[ f.addr ] |= bit; }
        else if ( what == 2 ) { if ( !b.call( "get_" + name ) || b.ret8() != ( model[ f.addr ] & bit ? 1 : 0 ) ) vm::fail( "read:" + name, "flag %s reads %u; %s", name.c_str(), b.ret8(), m.bad.c_str() ); }
        else { if ( !b.call( "clr_" + name ) ) vm::fail( "firmware:" + name, "%s", m.bad.c_str() ); model[ f.addr ] &= uint8_t( ~bit ); }
        for ( auto & x : FLAGS ) if ( m.io[ x.addr ] != model[ x.addr ] ) { vm::fail( "history:" + name, "after %s of %s register 0x%02x is 0x%02x instead of 0x%02x", what == 2 ? "reading" : "clearing", name.c_str(), x.addr, m.io[ x.addr ], model[ x.addr ] ); return; }
        h = vm::mix( h, vm::strhash( name.c_str() ) + uint64_t( what ) ); vm::event();
    }
    vm::distinct( h );
}
VMON_MAIN
