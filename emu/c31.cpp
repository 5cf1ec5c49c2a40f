// C31: register and bit definitions match the ATmega328P.
#include "../emu/avr.hpp"
using avr::Board; using avr::Cpu;
static Board<Cpu> & board() { static Board<Cpu> b( avr::firmware() ); return b; }
struct Def { const char * name; unsigned addr, hi, lo; const char * acc; unsigned width; };
static const Def DEFS[] = {
#define F( n, t, addr, hi, lo, acc, w ) { #n, addr, hi, lo, #acc, w },
#include "../common/c31.def"
#undef F
};
#undef K
#define F( ... )
static const struct { const char * name; unsigned addr; } CONSTS[] = {
#define K( n, e, a ) { #n, a },
#include "../common/c31.def"
};
enum : unsigned { NDEF = sizeof DEFS / sizeof *DEFS, NCONST = sizeof CONSTS / sizeof *CONSTS };
static bool mine( Def const & d, unsigned a ) { return a == d.addr || ( d.width == 16 && a == d.addr + 1 ); }
static bool frame( Def const & d, unsigned a ) { return a >= 0x5d && a <= 0x5f && !mine( d, a ); }
static unsigned fld( Def const & d, unsigned reg ) { return ( reg >> d.lo ) & ( ( 2u << ( d.hi - d.lo ) ) - 1 ); }

// registers of the processor itself: only the access is judged, the call is abandoned right after it
static void cpu( Def const & d, vm::Rng & g )
{
    auto & b = board(); auto & m = b.m; b.abi = false; b.reset(); unsigned s = unsigned( g.next() & 255 ), v = unsigned( g.next() & ( d.width == 16 ? 0xffff : 0xff ) );
    auto accesses = [&]( bool write ) { std::vector<avr::Acc> r; for ( auto & a : m.log ) { bool w = a.kind == 'w' || a.kind == 's' || a.kind == 'c'; if ( w == write && mine( d, a.addr ) ) r.push_back( a ); } return r; };
    b.call( std::string( "rd_" ) + d.name, {}, uint8_t( s ), [&] { return accesses( false ).size() >= d.width / 8; } );
    auto r = accesses( false ); bool foreign = false; for ( auto & a : m.log ) if ( !mine( d, a.addr ) && ( a.addr < 0x5d || a.addr > 0x5f ) ) foreign = true;
    if ( r.size() != d.width / 8 || foreign || !m.bad.empty() ) vm::fail( std::string( "address-read:" ) + d.name, "reading %s accesses%s instead of 0x%02x; %s", d.name, avr::logstr( m.log ).c_str(), d.addr, m.bad.c_str() );
    if ( d.addr == 0x5f && d.width == 8 && r.size() == 1 )
    {
        b.reset(); b.abi = true; bool ok = b.call( std::string( "rd_" ) + d.name, {}, uint8_t( s ) ); if ( !ok || b.ret8() != fld( d, r[0].val ) ) vm::fail( std::string( "bits-read:" ) + d.name, "%s of status 0x%02x reads %u", d.name, r[0].val, b.ret8() ); b.abi = false;
    }
    b.reset();
    b.call( std::string( "wr_" ) + d.name, { b.a16( v ) }, uint8_t( s & 0x7f ), [&] { return accesses( true ).size() >= d.width / 8; } );
    r = accesses( true ); foreign = false; for ( auto & a : m.log ) if ( !mine( d, a.addr ) && ( a.addr < 0x5d || a.addr > 0x5f ) ) foreign = true;
    if ( r.size() != d.width / 8 || foreign || !m.bad.empty() ) vm::fail( std::string( "address-write:" ) + d.name, "writing %s accesses%s instead of 0x%02x; %s", d.name, avr::logstr( m.log ).c_str(), d.addr, m.bad.c_str() );
    else if ( d.hi - d.lo + 1 == d.width ) { for ( auto & a : r ) if ( a.val != uint8_t( v >> 8 * ( a.addr - d.addr ) ) ) vm::fail( std::string( "bits-write:" ) + d.name, "writing 0x%x to %s stores%s", v, d.name, avr::logstr( m.log ).c_str() ); }
    else
    {   // one bit of the status register: compare with the status read just before the store
        unsigned before = s; for ( auto & a : m.log ) if ( a.addr == 0x5f && a.kind == 'r' ) before = a.val;
        unsigned want = ( before & ~( 1u << d.lo ) ) | ( v ? 1u << d.lo : 0u );
        if ( ( r[0].kind == 'w' ? r[0].val : want ) != want ) vm::fail( std::string( "bits-write:" ) + d.name, "writing %u to %s of 0x%02x stores 0x%02x", v, d.name, before, r[0].val );
    }
    b.abi = true;
}
static void one( Def const & d, vm::Rng & g, int k )
{
    auto & b = board(); auto & m = b.m; for ( int a = 0x20; a < 256; ++a ) m.io[ a ] = uint8_t( g.next() );
    if ( k < 2 ) { m.io[ d.addr ] = k ? 255 : 0; m.io[ d.addr + 1 ] = k ? 255 : 0; }
    std::string acc = d.acc; uint8_t before[256]; memcpy( before, m.io, 256 ); unsigned old = m.io[ d.addr ] | ( d.width == 16 ? m.io[ d.addr + 1 ] << 8 : 0u );
    auto scan = [&]( bool write, const char * what )
    {
        unsigned n[2] = { 0, 0 }; bool foreign = false; for ( auto & a : m.log ) { bool w = a.kind == 'w' || a.kind == 's' || a.kind == 'c'; if ( frame( d, a.addr ) ) continue; if ( !mine( d, a.addr ) ) foreign = true; else if ( w ) { if ( !write ) foreign = true; ++n[ a.addr - d.addr ]; } else if ( !write ) ++n[ a.addr - d.addr ]; vm::event(); }
        if ( foreign || !n[0] || ( d.width == 16 && !n[1] ) ) vm::fail( std::string( "address-" ) + what + ":" + d.name, "%s of %s accesses%s instead of 0x%02x", what, d.name, avr::logstr( m.log ).c_str(), d.addr );
        for ( unsigned a = 0x20; a < 256; ++a ) if ( ( !write || !mine( d, a ) ) && ( a < 0x5d || a > 0x5f ) && m.io[ a ] != before[ a ] ) vm::fail( std::string( "address-" ) + what + ":" + d.name, "%s of %s changes register 0x%02x", what, d.name, a );
    };
    if ( !b.call( std::string( "rd_" ) + d.name ) ) { vm::fail( std::string( "firmware:" ) + d.name, "%s", m.bad.c_str() ); return; }
    scan( false, "read" ); unsigned got = d.width == 16 ? b.ret16() : b.ret8(); if ( got != fld( d, old ) ) vm::fail( std::string( "bits-read:" ) + d.name, "%s of register 0x%x reads 0x%x instead of bits %u..%u = 0x%x", d.name, old, got, d.hi, d.lo, fld( d, old ) );
    unsigned mask = ( ( 2u << ( d.hi - d.lo ) ) - 1 ) << d.lo, v = unsigned( g.next() ) & ( ( 2u << ( d.hi - d.lo ) ) - 1 );
    if ( acc == "RW" )
    {
        for ( const char * w : { "wr_", "wl_" } )
        {
            if ( !b.has( std::string( w ) + d.name ) ) continue;
            memcpy( m.io, before, 256 ); if ( !b.call( std::string( w ) + d.name, { w[1] == 'l' ? b.a8( v ) : b.a16( v ) } ) ) { vm::fail( std::string( "firmware:" ) + d.name, "%s", m.bad.c_str() ); return; }
            scan( true, "write" ); unsigned now = m.io[ d.addr ] | ( d.width == 16 ? m.io[ d.addr + 1 ] << 8 : 0u ), want = ( old & ~mask ) | v << d.lo;
            if ( now != want ) vm::fail( std::string( "bits-write:" ) + d.name, "writing 0x%x to %s of 0x%x leaves 0x%x instead of 0x%x (bits %u..%u)", v, d.name, old, now, want, d.hi, d.lo );
        }
    }
    else if ( acc == "W1C" )
    {
        if ( !b.call( std::string( "cl_" ) + d.name ) ) { vm::fail( std::string( "firmware:" ) + d.name, "%s", m.bad.c_str() ); return; }
        scan( true, "clear" ); bool hit = false; for ( auto & a : m.log ) if ( a.addr == d.addr && ( ( a.kind == 'w' && ( a.val & mask ) ) || ( a.kind == 's' && a.val == d.lo ) ) ) hit = true;
        if ( !hit ) vm::fail( std::string( "bits-clear:" ) + d.name, "clearing %s does not write a one to bit %u of 0x%02x:%s", d.name, d.lo, d.addr, avr::logstr( m.log ).c_str() );
    }
    vm::distinct( vm::mix( vm::mix( vm::strhash( d.name ), old ), v ) );
}
GROUP( registers, NDEF, NDEF )
{
    Def const & d = DEFS[ vm::st().idx % NDEF ]; auto & b = board(); b.reset(); int reps = vm::st().thorough ? 4000 : 60; vm::counter( "registers-and-fields" );
    if ( std::string( d.acc ) == "CPU" ) { for ( int k = 0; k < ( vm::st().thorough ? 200 : 8 ); ++k ) { cpu( d, g ); vm::distinct( vm::mix( vm::strhash( d.name ), uint64_t( k ) ) ); } }
    else for ( int k = 0; k < reps; ++k ) one( d, g, k );
    vm::sample( "%s: 0x%02x bits %u..%u", d.name, d.addr, d.hi, d.lo );
}
GROUP( constants, NCONST, NCONST )
{
    auto & c = CONSTS[ vm::st().idx % NCONST ]; auto & b = board(); b.reset();
    if ( !b.call( std::string( "k_" ) + c.name ) || b.ret8() != c.addr ) vm::fail( std::string( "address-constant:" ) + c.name, "%s is 0x%02x, the device has it at 0x%02x", c.name, b.ret8(), c.addr );
    vm::distinct( vm::strhash( c.name ) );
}
GROUP( external_interrupts, 200, 4000 )
{
    struct R { const char * fn; unsigned addr, hi, lo; bool w; };
    static const R RS[] = { { "ei_en0", 0x3d, 0, 0, 0 }, { "ei_en1", 0x3d, 1, 1, 0 }, { "ei_sen0", 0x3d, 0, 0, 1 }, { "ei_sen1", 0x3d, 1, 1, 1 }, { "ei_fl0", 0x3c, 0, 0, 0 }, { "ei_fl1", 0x3c, 1, 1, 0 },
        { "ei_pc0", 0x68, 0, 0, 0 }, { "ei_pc1", 0x68, 1, 1, 0 }, { "ei_pc2", 0x68, 2, 2, 0 }, { "ei_spc0", 0x68, 0, 0, 1 }, { "ei_spc1", 0x68, 1, 1, 1 }, { "ei_spc2", 0x68, 2, 2, 1 }, { "ei_pf0", 0x3b, 0, 0, 0 }, { "ei_pf1", 0x3b, 1, 1, 0 }, { "ei_pf2", 0x3b, 2, 2, 0 },
        { "ei_m0", 0x6b, 7, 0, 0 }, { "ei_m1", 0x6c, 7, 0, 0 }, { "ei_m2", 0x6d, 7, 0, 0 }, { "ei_sm0", 0x6b, 7, 0, 1 }, { "ei_sm1", 0x6c, 7, 0, 1 }, { "ei_sm2", 0x6d, 7, 0, 1 } };
    auto & b = board(); auto & m = b.m; b.reset(); for ( int a = 0x20; a < 256; ++a ) m.io[ a ] = uint8_t( g.next() );
    for ( auto & r : RS )
    {
        uint8_t before[256]; memcpy( before, m.io, 256 ); unsigned mask = ( ( 2u << ( r.hi - r.lo ) ) - 1 ) << r.lo, v = unsigned( g.next() ) & ( mask >> r.lo ), old = m.io[ r.addr ];
        if ( !( r.w ? b.call( r.fn, { b.a8( v ) } ) : b.call( r.fn ) ) ) { vm::fail( std::string( "firmware:" ) + r.fn, "%s", m.bad.c_str() ); return; }
        if ( !r.w && b.ret8() != ( old & mask ) >> r.lo ) vm::fail( std::string( "bits-read:" ) + r.fn, "%s of 0x%02x returns 0x%02x", r.fn, old, b.ret8() );
        if ( r.w && m.io[ r.addr ] != ( ( old & ~mask ) | v << r.lo ) ) vm::fail( std::string( "bits-write:" ) + r.fn, "%s( %u ) of 0x%02x leaves 0x%02x", r.fn, v, old, m.io[ r.addr ] );
        for ( unsigned a = 0x20; a < 256; ++a ) if ( !( r.w && a == r.addr ) && ( a < 0x5d || a > 0x5f ) && m.io[ a ] != before[ a ] ) vm::fail( std::string( "address-write:" ) + r.fn, "%s changes register 0x%02x", r.fn, a );
        vm::distinct( vm::mix( vm::strhash( r.fn ), old * 256 + v ) );
    }
}
VMON_MAIN
