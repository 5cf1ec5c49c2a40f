// C30: combined lazy writes reach the register as one single correct write.
#include "../emu/avr.hpp"
using avr::Board; using avr::Cpu;
static size_t which = 0;
static Board<Cpu> & board() { static Board<Cpu> b0( avr::firmware( 0 ) ), b1( avr::firmware( 1 ) ), b2( avr::firmware( 2 ) ); return which == 0 ? b0 : which == 1 ? b1 : b2; }
static std::vector<std::pair<size_t, std::string>> & fns() { static std::vector<std::pair<size_t, std::string>> v; if ( v.empty() ) for ( size_t i = 0; i < 3; ++i ) for ( auto & s : avr::firmware( i ).sym ) if ( s.second.func && s.first.find( "_0x" ) != std::string::npos ) v.push_back( { i, s.first } ); return v; }
enum { MARK = 0x4b };
// run f on a register holding 'old'; the register must be written exactly once, before the next statement, and end up as 'want'
static void check( std::string const & f, std::vector<Board<Cpu>::Arg> const & args, unsigned addr, unsigned want, unsigned old, int bytes, std::vector<unsigned> also = {} )
{
    auto & b = board(); auto & m = b.m; uint8_t before[256]; memcpy( before, m.io, 256 ); std::string kind = f.substr( 0, f.find( '_' ) ); if ( kind == "s" ) kind = f;
    if ( !b.call( f, args ) ) { vm::fail( "firmware:" + kind, "%s: %s", f.c_str(), m.bad.c_str() ); return; }
    unsigned now = m.io[ addr ] | ( bytes == 2 ? m.io[ addr + 1 ] << 8 : 0 ); int w[2] = { 0, 0 }; bool marked = false, late = false, foreign = false;
    for ( auto & a : m.log )
    {
        vm::event(); bool wr = a.kind == 'w' || a.kind == 's' || a.kind == 'c';
        if ( a.addr == MARK ) { if ( wr ) marked = true; continue; }
        if ( a.addr == addr || ( bytes == 2 && a.addr == addr + 1 ) ) { if ( wr ) { ++w[ a.addr - addr ]; if ( marked ) late = true; } }
        else { bool ok = a.addr >= 0x5d && a.addr <= 0x5f; /* the processor's own stack frame set-up */ for ( auto x : also ) ok = ok || x == a.addr; if ( !ok ) foreign = true; }
    }
    std::string l = avr::logstr( m.log );
    if ( now != want ) vm::fail( "combined-value:" + kind, "%s on 0x%x leaves 0x%x instead of 0x%x;%s", f.c_str(), old, now, want, l.c_str() );
    if ( w[0] != 1 || ( bytes == 2 && w[1] != 1 ) ) vm::fail( "write-count:" + kind, "%s writes its register %d times;%s", f.c_str(), w[0], l.c_str() );
    if ( late || !marked ) vm::fail( "late-write:" + kind, "%s writes after the end of its statement;%s", f.c_str(), l.c_str() );
    if ( foreign ) vm::fail( "other-register:" + kind, "%s accesses another register;%s", f.c_str(), l.c_str() );
    for ( int a = 0x20; a < 256; ++a ) { bool ok = a == int( addr ) || ( bytes == 2 && a == int( addr ) + 1 ) || a == MARK || a == 0x5f || a == 0x5d || a == 0x5e; for ( auto x : also ) ok = ok || int( x ) == a; if ( !ok && m.io[ a ] != before[ a ] ) vm::fail( "other-register:" + kind, "%s changes register 0x%02x", f.c_str(), a ); }
}
static const unsigned HI[4] = { 7, 5, 4, 2 }, LO[4] = { 6, 5, 3, 0 }, HI16[4] = { 15, 11, 10, 2 }, LO16[4] = { 12, 11, 3, 0 };
GROUP( orders, 500, 500 )
{
    auto & l = fns(); size_t i = size_t( vm::st().idx ); if ( i >= l.size() ) return; std::string const & f = l[ i ].second; which = l[ i ].first; auto & b = board(); b.reset(); auto & m = b.m; for ( int a = 0x20; a < 256; ++a ) m.io[ a ] = uint8_t( g.next() );
    unsigned addr = 0; char sel[16] = ""; std::string op = f.substr( 0, 2 ); sscanf( f.c_str() + f.find( "_0x" ), "_0x%x_%15s", &addr, sel ); int reps = vm::st().thorough ? 3000 : 100;
    vm::counter( "functions" );
    for ( int k = 0; k < reps; ++k )
    {
        bool wide = op[0] == 'w'; unsigned old = unsigned( g.next() & ( wide ? 0xffff : 0xff ) ); if ( k == 0 ) old = 0; if ( k == 1 ) old = wide ? 0xffff : 0xff; m.io[ addr ] = uint8_t( old ); if ( wide ) m.io[ addr + 1 ] = uint8_t( old >> 8 );
        unsigned v[4]; for ( int n = 0; n < 4; ++n ) v[n] = unsigned( g.next() & ( ( 1u << ( wide ? HI16[n] - LO16[n] + 1 : HI[n] - LO[n] + 1 ) ) - 1 ) );
        unsigned want = old; auto put = [&]( unsigned h, unsigned lo, unsigned x ) { unsigned mk = ( ( 1u << ( h - lo + 1 ) ) - 1 ) << lo; want = ( want & ~mk ) | x << lo; };
        std::vector<Board<Cpu>::Arg> args = { b.a8( v[0] ), b.a8( v[1] ), b.a8( v[2] ), b.a8( v[3] ) };
        if ( op == "cb" || op == "cn" ) for ( char * c = sel; *c; ++c ) put( HI[ *c - '0' ], LO[ *c - '0' ], v[ *c - '0' ] );
        else if ( op == "ba" || op == "bd" || op == "bm" || op == "bp" ) { unsigned x = unsigned( g.next() & 255 ), mk = op == "bp" ? 0x52 : 255; want = ( old & ~mk ) | ( x & mk ); args = { b.a8( x ) }; }
        else if ( op[0] == 'k' )
        {
            args.clear();
            switch ( op[1] ) { case '0': put( 5, 5, 1 ); break; case '1': put( 5, 5, 0 ); break; case '2': put( 7, 6, 2 ); put( 4, 3, 1 ); break; case '3': put( 2, 0, 5 ); put( 5, 5, 0 ); put( 7, 6, 3 ); break; case '4': put( 4, 3, 0 ); put( 2, 0, 0 ); break; case '5': put( 7, 7, 1 ); put( 0, 0, 1 ); break; }
        }
        else if ( wide ) for ( int n = 0; n < 4; ++n ) { if ( op == "w2" && ( n == 1 || n == 3 ) ) continue; put( HI16[n], LO16[n], v[n] ); }
        else { vm::fail( "harness", "unknown function %s", f.c_str() ); return; }
        check( f, args, addr, want, old, wide ? 2 : 1 );
        vm::distinct( vm::mix( vm::mix( vm::strhash( f.c_str() ), old ), v[0] + 256 * v[1] + 65536 * v[2] + 16777216ull * v[3] ) );
    }
    vm::sample( "%s on random contents", f.c_str() );
}
// the library's own settings, combined: fields from the data sheet's register descriptions
struct SetF { const char * f; unsigned addr; int n; struct { int arg; unsigned hi, lo; int konst; } fld[5]; unsigned also; struct { int arg; unsigned shift, hi, lo; } second; };
static const SetF SETS[] = {
    { "s_adc", 0x7a, 5, { { 0, 7, 7 }, { 1, 3, 3 }, { 2, 5, 5 }, { 3, 2, 0 }, { -1, 6, 6, 1 } } }, { "s_adc2", 0x7a, 5, { { 0, 7, 7 }, { 1, 3, 3 }, { 2, 5, 5 }, { 3, 2, 0 }, { -1, 6, 6, 1 } } },
    { "s_admux", 0x7c, 3, { { 0, 7, 6 }, { 1, 5, 5 }, { 2, 3, 0 } } }, { "s_admux2", 0x7c, 3, { { 0, 7, 6 }, { 1, 5, 5 }, { 2, 3, 0 } } },
    { "s_com0", 0x44, 2, { { 0, 7, 6 }, { 1, 5, 4 } } }, { "s_com1", 0x80, 2, { { 0, 7, 6 }, { 1, 5, 4 } } },
    { "s_timsk0", 0x6e, 3, { { 0, 1, 1 }, { 1, 2, 2 }, { 2, 0, 0 } } }, { "s_timsk1", 0x6f, 4, { { 0, 1, 1 }, { 1, 2, 2 }, { 2, 0, 0 }, { 3, 5, 5 } } },
    { "s_tccr1b", 0x81, 3, { { 0, 2, 0 }, { 1, 6, 6 }, { 2, 7, 7 } } }, { "s_eecr", 0x3f, 4, { { 0, 5, 4 }, { 1, 3, 3 }, { 2, 2, 2 }, { 3, 1, 1 } } },
    { "s_eicra", 0x69, 2, { { 0, 3, 2 }, { 1, 1, 0 } } }, { "s_acsr", 0x50, 4, { { 0, 1, 0 }, { 1, 3, 3 }, { 2, 2, 2 }, { 3, 6, 6 } } },
    { "s_gtccr", 0x43, 3, { { 0, 7, 7 }, { 1, 1, 1 }, { 2, 0, 0 } } }, { "s_twcr", 0xbc, 4, { { 0, 2, 2 }, { 1, 0, 0 }, { -1, 5, 5, 1 }, { -1, 6, 6, 1 } } }, { "s_twcr2", 0xbc, 3, { { 0, 2, 2 }, { -1, 7, 7, 1 }, { -1, 4, 4, 1 } } },
    { "s_twar", 0xba, 2, { { 0, 7, 1 }, { 1, 0, 0 } } },
    { "s_wave0", 0x45, 2, { { 0, 3, 3, 2 }, { 1, 2, 0 } }, 0x44, { 0, 0, 1, 0 } }, { "s_wave1", 0x81, 3, { { 0, 4, 3, 2 }, { 1, 2, 0 }, { 2, 6, 6 } }, 0x80, { 0, 0, 1, 0 } },
};
GROUP( settings, 18, 18 )
{
    which = 0; auto & b = board(); b.reset(); auto & m = b.m; SetF const & s = SETS[ vm::st().idx % 18 ]; int reps = vm::st().thorough ? 20000 : 300; for ( int a = 0x20; a < 256; ++a ) m.io[ a ] = uint8_t( g.next() );
    for ( int k = 0; k < reps; ++k )
    {
        unsigned old = unsigned( g.next() & 255 ), v[4] = { 0, 0, 0, 0 }, want = old; for ( auto & x : v ) x = unsigned( g.next() & 255 ); bool wave = s.also;
        m.io[ s.addr ] = uint8_t( old ); unsigned old2 = wave ? m.io[ s.also ] : 0, want2 = old2;
        for ( int n = 0; n < s.n; ++n ) { auto & f = s.fld[n]; unsigned mk = ( 1u << ( f.hi - f.lo + 1 ) ) - 1, x = f.arg < 0 ? unsigned( f.konst ) : f.konst ? ( v[ f.arg ] >> f.konst ) & mk : v[ f.arg ] & mk; want = ( want & ~( mk << f.lo ) ) | x << f.lo; }
        if ( wave ) { want2 = ( old2 & ~3u ) | ( v[0] & 3 ); }
        check( s.f, { b.a8( v[0] ), b.a8( v[1] ), b.a8( v[2] ), b.a8( v[3] ) }, s.addr, want, old, 1, wave ? std::vector<unsigned>{ s.also } : std::vector<unsigned>{} );
        if ( wave && m.io[ s.also ] != want2 ) vm::fail( std::string( "combined-value:" ) + s.f, "%s leaves 0x%02x in register 0x%02x instead of 0x%02x", s.f, m.io[ s.also ], s.also, want2 );
        vm::distinct( vm::mix( vm::mix( vm::strhash( s.f ), old ), v[0] + 256 * v[1] + 65536 * v[2] + 16777216ull * v[3] ) );
    }
    vm::sample( "%s on register 0x%02x", s.f, s.addr );
}
VMON_MAIN
