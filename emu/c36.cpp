// C36: a TWI master write sends start, address, data, stop, and reports every failure.
#include "../emu/m328.hpp"
using avr::Board; using avr::M328;
static Board<M328> & board() { static Board<M328> b( avr::firmware() ); return b; }
static std::string bus( M328 const & m ) { std::string s; for ( auto & e : m.twi.bus ) s += ( s.empty() ? "" : ", " ) + e; return s; }
static const uint8_t WANT[3] = { 0x08, 0x18, 0x28 };
// bring the interface up with random settings and run 'write' under a scripted bus
struct Setup { uint8_t rate, ps, stale; std::vector<uint8_t> script; unsigned lat[3]; bool enabled; };
static void prepare( Setup const & s, vm::Rng & g )
{
    auto & b = board(); auto & m = b.m; b.reset(); m.running = false; for ( int a = 0x23; a < 0x2c; ++a ) m.io[ a ] = uint8_t( g.next() );
    m.io[ M328::TWBR ] = s.rate; m.io[ M328::TWSR ] = uint8_t( s.stale | s.ps ); m.io[ M328::TWCR ] = s.enabled ? 4 : 0; m.io[ M328::TWDR ] = uint8_t( g.next() ); m.io[ M328::TWAR ] = uint8_t( g.next() ); m.io[ M328::TWAMR ] = uint8_t( g.next() & 0xfe );
    m.twi.script = s.script; m.twi.at = 0; m.running = true; auto lat = std::vector<unsigned>( s.lat, s.lat + 3 ); size_t k = 0; m.twi.latency = [lat, k]() mutable { return lat[ k++ % 3 ]; };
}
// after the call, time goes on: nothing more may happen on the bus
static void settle( unsigned n ) { auto & m = board().m; for ( unsigned i = 0; i < n; ++i ) { m.cyc += 8; m.tick( 8 ); } }
static void judge( Setup const & s, uint8_t a, uint8_t d, uint8_t const * before )
{
    auto & b = board(); auto & m = b.m; bool ok = b.call( "write", { b.a8( a ), b.a8( d ) }, 0 ); if ( !ok ) { vm::fail( "firmware:write", "write( %02x, %02x ): %s (bus: %s)", a, d, m.bad.c_str(), bus( m ).c_str() ); return; }
    settle( 2000 ); int fail = 3; for ( int i = 0; i < 3; ++i ) { uint8_t st = s.script[ size_t( i ) ] ? s.script[ size_t( i ) ] & 0xf8 : i == 1 && ( a & 1 ) ? 0x40 : WANT[i]; if ( st != WANT[i] ) { fail = i; break; } }
    static const char * const STEP[] = { "start", "address", "data", "none" };
    std::vector<std::string> want = { "START", vm::fmt( "ADDR %02x", a ), vm::fmt( "DATA %02x", d ), "STOP" }; if ( fail < 3 ) want.resize( size_t( fail ) + 1 );
    std::string w; for ( auto & e : want ) w += ( w.empty() ? "" : ", " ) + e; std::string where = vm::fmt( "write( %02x, %02x ), first failure: %s, status %02x", a, d, STEP[ fail ], fail < 3 ? s.script[ size_t( fail ) ] : 0 );
    if ( bus( m ) != w ) vm::fail( fail == 3 ? "bus-sequence" : "bus-after-error", "%s: the bus sees %s instead of %s", where.c_str(), bus( m ).c_str(), w.c_str() );
    if ( ( b.ret8() != 0 ) != ( fail < 3 ) ) vm::fail( fail == 3 ? "reports-error" : std::string( "misses-error:" ) + STEP[ fail ], "%s: reported %s", where.c_str(), b.ret8() ? "an error" : "success" );
    for ( auto & p : m.protocol ) vm::fail( "protocol:" + p, "%s: %s", where.c_str(), p.c_str() );
    if ( !( m.io[ M328::TWCR ] & 4 ) ) vm::fail( "disabled", "%s: the interface is left disabled", where.c_str() );
    for ( int i = 0x20; i < 256; ++i ) if ( i != M328::TWDR && i != M328::TWCR && i != M328::TWSR && m.io[ i ] != before[ i ] ) vm::fail( "other-register", "%s: register %02x changed from %02x to %02x", where.c_str(), i, before[ i ], m.io[ i ] );
    if ( ( m.io[ M328::TWSR ] & 3 ) != s.ps ) vm::fail( "prescaler-changed", "%s: prescaler bits changed from %d", where.c_str(), s.ps );
    vm::counter( fail == 3 ? "complete-transfers" : std::string( "failures-at-" ) + STEP[ fail ] );
}
static unsigned latency( vm::Rng & g ) { return g.p( .2 ) ? unsigned( g.i( 1, 30 ) ) : unsigned( g.logu( 30, 20000 ) ); }
static Setup random_setup( vm::Rng & g ) { static const uint8_t STALE[] = { 0xf8, 0x08, 0x10, 0x18, 0x20, 0x28, 0x30, 0x38, 0x00 }; Setup s; s.rate = uint8_t( g.next() ); s.ps = uint8_t( g.i( 0, 3 ) ); s.stale = STALE[ g.next() % 9 ]; s.script = { 0, 0, 0 }; for ( auto & l : s.lat ) l = latency( g ); s.enabled = g.p( .8 ); return s; }
GROUP( transfers, 200, 6000 )
{
    auto & m = board().m;
    for ( int k = 0; k < 8; ++k )
    {
        Setup s = random_setup( g ); prepare( s, g ); uint8_t a = uint8_t( g.next() & 0xfe ), d = uint8_t( g.next() ); if ( vm::st().idx < 128 ) { a = uint8_t( vm::st().idx * 2 ); } if ( k == 0 ) a |= 1; uint8_t before[256]; memcpy( before, m.io, 256 );
        judge( s, a, d, before ); vm::distinct( vm::mix( uint64_t( a ) << 40 | uint64_t( d ) << 32 | uint64_t( s.ps ) << 16 | s.stale, 36 ) ); if ( vm::st().idx == 0 && k < 3 ) vm::sample( "write( %02x, %02x ) after TWSR=%02x, latencies %u/%u/%u cycles: %s", a, d, s.stale | s.ps, s.lat[0], s.lat[1], s.lat[2], bus( m ).c_str() );
    }
}
// every status code at every step
GROUP( failures, 96, 960 )
{
    auto & m = board().m; int step = int( vm::st().idx % 3 ); uint8_t code = uint8_t( vm::st().idx / 3 % 32 * 8 ); if ( code == 0 ) code = 1;   // a bus error
    for ( int k = 0; k < 8; ++k )
    {
        Setup s = random_setup( g ); if ( k < 2 ) s.stale = WANT[ step ]; s.ps = uint8_t( k & 3 ); s.script[ size_t( step ) ] = code; if ( step < 2 && g.p( .5 ) ) s.script[ size_t( step ) + 1 ] = uint8_t( g.next() & 0xf8 );
        prepare( s, g ); uint8_t before[256]; memcpy( before, m.io, 256 ); judge( s, uint8_t( g.next() & 0xfe ), uint8_t( g.next() ), before ); vm::distinct( vm::mix( vm::mix( uint64_t( step * 256 + code ), s.ps ), uint64_t( s.stale ) ) );
    }
}
// devices that stretch the clock for up to seconds
GROUP( slow, 6, 60 )
{
    auto & b = board(); auto & m = b.m; Setup s = random_setup( g ); s.enabled = true; for ( auto & l : s.lat ) l = latency( g ); int step = int( vm::st().idx % 3 ); s.lat[ step ] = unsigned( g.logu( 1e6, 4e7 ) ); bool bad = vm::st().idx % 2; if ( bad ) s.script[ size_t( step ) ] = 0x20;
    auto limit = b.limit; b.limit = 100000000; prepare( s, g ); uint8_t before[256]; memcpy( before, m.io, 256 ); judge( s, uint8_t( g.next() & 0xfe ), uint8_t( g.next() ), before ); b.limit = limit; vm::distinct( vm::mix( s.lat[ step ], 361 ) ); vm::counter( "stretched-steps" );
}
GROUP( initialise, 256, 2048 )
{
    auto & b = board(); auto & m = b.m; uint8_t rate = uint8_t( vm::st().idx );
    for ( int form = 0; form < 6; ++form )
    {
        b.reset(); for ( int a = 0x23; a < 256; ++a ) if ( a != 0x5d && a != 0x5e && a != 0x5f && !M328::w1c( uint16_t( a ) ) ) m.io[ a ] = uint8_t( g.next() );
        m.io[ M328::TWCR ] = uint8_t( g.next() & ( g.p( .5 ) ? 0x75 : 0x45 ) ); m.io[ M328::TWSR ] = uint8_t( 0xf8 | g.i( 0, 3 ) ); m.running = false; uint8_t before[256]; memcpy( before, m.io, 256 ); uint8_t ps = uint8_t( form & 3 ), r = rate; bool ok;
        if ( form < 4 ) ok = b.call( "init", { b.a8( r ), b.a8( ps ) } ); else if ( form == 4 ) ok = b.call( "init_rate", { b.a8( r ) } ), ps = 0; else ok = b.call( "init_default" ), ps = 0, r = 0x0c;
        if ( !ok ) { vm::fail( "firmware:init", "init: %s", m.bad.c_str() ); continue; }
        if ( m.io[ M328::TWBR ] != r ) vm::fail( "init-rate", "bit rate %02x requested, TWBR is %02x", r, m.io[ M328::TWBR ] );
        if ( ( m.io[ M328::TWSR ] & 3 ) != ps ) vm::fail( "init-prescaler", "prescaler code %d requested, TWPS is %d (it was %d)", ps, m.io[ M328::TWSR ] & 3, before[ M328::TWSR ] & 3 );
        if ( !( m.io[ M328::TWCR ] & 4 ) ) vm::fail( "init-enable", "the interface is not enabled: TWCR is %02x (it was %02x)", m.io[ M328::TWCR ], before[ M328::TWCR ] );
        if ( m.io[ M328::TWCR ] & 0x30 ) vm::fail( "init-condition", "initialisation requests a start or stop condition: TWCR is %02x", m.io[ M328::TWCR ] );
        if ( m.io[ M328::PORTC ] != ( before[ M328::PORTC ] | 0x30 ) ) vm::fail( "init-pull-ups", "PORTC goes from %02x to %02x instead of %02x", before[ M328::PORTC ], m.io[ M328::PORTC ], before[ M328::PORTC ] | 0x30 );
        for ( int i = 0x20; i < 256; ++i ) if ( i != M328::TWBR && i != M328::TWSR && i != M328::TWCR && i != M328::PORTC && m.io[ i ] != before[ i ] ) vm::fail( "init-other-register", "initialisation changes register %02x from %02x to %02x", i, before[ i ], m.io[ i ] );
        vm::distinct( vm::mix( uint64_t( r ) << 8 | uint64_t( form ), before[ M328::PORTC ] ) ); vm::counter( "initialisations" );
    }
}
// several writes, as for a display or register file: every byte arrives, in order, until the first failure
GROUP( bursts, 60, 3000 )
{
    static const uint8_t BAD[] = { 0x20, 0x30, 0x38, 0xf8, 0x50, 1 }; auto & b = board(); auto & m = b.m; Setup s = random_setup( g ); s.enabled = true; prepare( s, g ); int n = g.i( 1, 20 ), bad = g.p( .5 ) ? g.i( 0, 3 * n - 1 ) : -1; std::vector<uint8_t> script; for ( int i = 0; i < 3 * n; ++i ) script.push_back( i == bad ? BAD[ g.next() % 6 ] : 0 ); m.twi.script = script;
    uint8_t a = uint8_t( g.next() & 0xfe ), f = uint8_t( g.next() ); std::string want; int sent = 0;
    for ( int i = 0; i < n; ++i ) { static const char * const S[] = { "START", "ADDR", "DATA" }; bool stop = false; for ( int k = 0; k < 3; ++k ) { want += ( want.empty() ? "" : ", " ) + ( k == 0 ? std::string( S[0] ) : vm::fmt( "%s %02x", S[k], k == 1 ? a : uint8_t( f + i ) ) ); if ( i * 3 + k == bad ) { stop = true; break; } } if ( stop ) break; want += ", STOP"; ++sent; }
    bool ok = b.call( "burst", { b.a8( a ), b.a8( f ), b.a8( unsigned( n ) ) } ); settle( 500 ); if ( !ok ) { vm::fail( "firmware:burst", "%s (bus: %s)", m.bad.c_str(), bus( m ).c_str() ); return; }
    if ( bus( m ) != want ) vm::fail( "burst-sequence", "the bus sees %s instead of %s", bus( m ).c_str(), want.c_str() ); if ( b.ret8() != sent ) vm::fail( "burst-count", "%d bytes reported sent instead of %d", b.ret8(), sent ); for ( auto & p : m.protocol ) vm::fail( "protocol:" + p, "burst: %s", p.c_str() );
    vm::distinct( vm::mix( uint64_t( a * 256 + f ), uint64_t( n * 100 + bad ) ) ); vm::counter( "burst-bytes", uint64_t( sent ) );
}
VMON_MAIN
