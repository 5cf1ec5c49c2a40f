// C35: interrupt handlers using the status guard are invisible to interrupted code.
#include "../emu/m328.hpp"
using avr::Board; using avr::M328;
static Board<M328> & board() { static Board<M328> b( avr::firmware() ); return b; }
enum { VEC = 14, SREG = 0x5f, MARK = 0x4a };
static const char * const SCOPES[] = { "s_plain", "s_return", "s_nested", "s_inner", "s_break", "s_continue", "s_goto", "s_value", "s_deep", "s_switch" };
// guard: what is in SREG when the guard is built is in SREG again when its scope is left
static void scope( int which, uint8_t v, uint8_t how, uint8_t x, uint8_t y )
{
    auto & b = board(); auto & m = b.m; b.reset(); std::string f = SCOPES[ which ]; bool ok = b.call( f, { b.a8( v ), b.a8( how ), b.a8( x ), b.a8( y ) }, 0 ); if ( !ok ) { vm::fail( "firmware:" + f, "%s: %s", f.c_str(), m.bad.c_str() ); return; }
    // the arithmetic flags may legitimately differ from v by the time the guard looks: take what it saw
    size_t i = 0, end; while ( i < m.log.size() && !( m.log[i].kind == 'w' && m.log[i].addr == MARK && m.log[i].val == 1 ) ) ++i; end = i; while ( end < m.log.size() && !( m.log[end].kind == 'w' && m.log[end].addr == MARK && m.log[end].val == 2 ) ) ++end;
    if ( end >= m.log.size() ) { vm::fail( "firmware:" + f, "markers missing in %s", f.c_str() ); return; }
    uint8_t want = v, got = 0; bool first = true, wrote = false, mixed = false; uint8_t cur = v;
    for ( size_t k = i; k < end; ++k ) if ( m.log[k].addr == SREG ) { auto & e = m.log[k]; if ( e.kind == 'r' && first ) { want = uint8_t( ( e.val & 0x3f ) | ( v & 0xc0 ) ); first = false; } if ( e.kind == 'w' ) { cur = e.val; wrote = true; mixed = false; } else if ( e.kind == 's' ) { cur |= 0x80; mixed = true; } else if ( e.kind == 'c' ) { cur &= 0x7f; mixed = true; } }
    for ( size_t k = end; k < m.log.size(); ++k ) if ( m.log[k].addr == SREG && m.log[k].kind == 'r' ) { got = m.log[k].val; break; }
    if ( ( got & 0xc0 ) != ( v & 0xc0 ) ) vm::fail( "status-not-restored:" + f, "%s: SREG is %02x when the guard is built and %02x after its scope (disturbed by %d, %02x, %02x)", f.c_str(), v, got, how, x, y );
    else if ( which != 4 && which != 5 && which != 9 && wrote && !mixed && cur != want )   // the others build several guards one after the other
        vm::fail( "status-not-restored:" + f, "%s: SREG is %02x when the guard is built and %02x is left in it after its scope (disturbed by %d, %02x, %02x)", f.c_str(), want, cur, how, x, y );
    vm::distinct( vm::mix( uint64_t( which ) << 32 | uint32_t( v ) << 24 | how << 16 | x << 8 | y, 35 ) ); vm::counter( "scopes" );
}
GROUP( scopes, 256, 2048 )
{
    uint8_t v = uint8_t( vm::st().idx ); for ( int s = 0; s < 10; ++s ) for ( int how = 0; how < 9; ++how ) { uint8_t x = how ? uint8_t( g.next() ) : uint8_t( ~v ); scope( s, v, uint8_t( how ), x, uint8_t( g.next() ) ); }
    // the interrupt flag decides: a guard around code that enables or disables interrupts
    for ( int s = 0; s < 10; ++s ) { scope( s, v, 2, 0, uint8_t( g.next() ) ); scope( s, v, 3, 0, uint8_t( g.next() ) ); }
    if ( v < 4 ) vm::sample( "SREG %02x in 10 ways of leaving a scope, disturbed in 9 ways", v );
}
struct Comp { const char * f; int n; };
static const Comp COMPS[] = { { "k_crc", 6 }, { "k_mul", 4 }, { "k_mul64", 2 }, { "k_fix", 2 }, { "k_flt", 2 }, { "k_sort", 10 }, { "k_mat", 3 }, { "k_bits", 20 }, { "k_guarded", 12 }, { "k_kal", 1 } };
struct State { uint8_t r[32], sreg; uint16_t sp; uint32_t pc; };
static State take( avr::Cpu const & m ) { State s; memcpy( s.r, m.r, 32 ); s.sreg = m.sreg; s.sp = m.sp; s.pc = m.pc; return s; }
static std::string diff( State const & a, State const & b ) { std::string s; for ( int i = 0; i < 32; ++i ) if ( a.r[i] != b.r[i] ) s += vm::fmt( " r%d %02x->%02x", i, a.r[i], b.r[i] ); if ( a.sreg != b.sreg ) s += vm::fmt( " SREG %02x->%02x", a.sreg, b.sreg ); if ( a.sp != b.sp ) s += " SP"; return s; }
// run a computation with interrupts where 'when' says; watches the handler from the outside
template< class F > static void computation( Comp const & c, uint32_t a, int mode, F when, uint32_t plain, std::string const & key, int & n )
{
    auto & b = board(); auto & m = b.m; b.reset(); b.limit = 60000000; b.mem( b.var( "mode" ) ) = uint8_t( mode ); b.put<uint16_t>( b.var( "w16" ), 0x1234 ); uint64_t served = 0; bool in = false; State at{}; n = 0; bool pend = false; std::string bad;
    m.boundary = [&]( avr::Cpu & )
    {
        if ( in && m.sp == at.sp && m.pc == at.pc ) { in = false; State now = take( m ); std::string d = diff( at, now ); if ( !d.empty() && bad.empty() ) bad = "machine state changed by the handler:" + d; }
        if ( in ) { if ( m.served[ VEC ] > served ) { served = m.served[ VEC ]; if ( bad.empty() ) bad = "the handler is interrupted by itself: interrupts are enabled before it returns"; } if ( when( n, true ) ) { m.forced_irq = VEC; pend = true; } }
        else
        {
            if ( when( n, false ) ) { m.forced_irq = VEC; pend = true; } ++n;
            if ( pend && ( m.sreg & 0x80 ) && !m.hold ) { in = true; pend = false; at = take( m ); served = m.served[ VEC ] + 1; }
        }
    };
    bool ok = b.call( c.f, { b.a32( a ), b.a8( unsigned( c.n ) ) }, 0x80 ); m.boundary = nullptr; m.forced_irq = -1; if ( !ok ) { vm::fail( "firmware:" + key, "%s: %s", c.f, m.bad.c_str() ); return; }
    if ( !bad.empty() ) vm::fail( "visible:" + key, "%s, handler %d: %s", c.f, mode, bad.c_str() );
    if ( b.ret32() != plain ) vm::fail( "result:" + key, "%s( %08x ) gives %08x when interrupted by handler %d, %08x otherwise", c.f, a, b.ret32(), mode, plain );
    if ( !( m.sreg & 0x80 ) ) vm::fail( "interrupts-left-off:" + key, "interrupts are disabled after %s with handler %d", c.f, mode );
    vm::counter( "handler-runs", m.served[ VEC ] ); vm::counter( "interrupted-computations" );
}
static uint32_t alone( Comp const & c, uint32_t a, uint64_t & instr ) { auto & b = board(); auto & m = b.m; b.reset(); uint64_t i0 = m.icount; if ( !b.call( c.f, { b.a32( a ), b.a8( unsigned( c.n ) ) }, 0 ) ) vm::fail( std::string( "firmware:" ) + c.f, "%s", m.bad.c_str() ); instr = m.icount - i0; return b.ret32(); }
GROUP( everywhere, 100, 500 )
{
    Comp const & c = COMPS[ vm::st().idx % 10 ]; int mode = int( vm::st().idx / 10 % 10 ); uint32_t a = uint32_t( g.next() ); uint64_t instr; uint32_t plain = alone( c, a, instr ); int step = vm::st().thorough ? 1 : int( instr / 400 ) + 1, start = int( g.next() % unsigned( step ) ), n = 0;
    for ( int at = start; at <= int( instr ); at += step ) { computation( c, a, mode, [&]( int k, bool in ) { return !in && k == at; }, plain, vm::fmt( "%s-%d", c.f, mode ), n ); vm::distinct( vm::mix( vm::strhash( c.f ), uint64_t( mode ) << 32 | uint64_t( at ) ) ); }
    if ( vm::st().idx < 4 ) vm::sample( "%s (%llu instructions) interrupted at each instruction by handler %d", c.f, (unsigned long long) instr, mode );
}
GROUP( storm, 60, 1500 )
{
    Comp c = COMPS[ g.next() % 10 ]; c.n *= 2; int mode = int( g.i( 0, 9 ) ), n = 0; uint32_t a = uint32_t( g.next() ); uint64_t instr; uint32_t plain = alone( c, a, instr ); double p = mode == 9 ? g.logu( .0005, .02 ) : g.logu( .002, .5 ); uint64_t h = 0;
    computation( c, a, mode, [&]( int k, bool in ) { bool y = !( in && mode == 9 ) && g.p( p ); if ( y ) h = vm::mix( h, uint64_t( k ) ); return y; }, plain, vm::fmt( "%s-%d-storm", c.f, mode ), n ); vm::distinct( h );
}
VMON_MAIN
