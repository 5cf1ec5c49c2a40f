// C29: accessing a register field affects that field only.
#include "../emu/avr.hpp"
using avr::Board; using avr::Cpu;
static Board<Cpu> & board() { static Board<Cpu> b( avr::firmware() ); return b; }
struct Fn { std::string name, op; unsigned addr, hi, lo; };
static std::vector<Fn> & fns()
{
    static std::vector<Fn> v;
    if ( v.empty() ) for ( auto & s : avr::firmware().sym ) if ( s.second.func )
    {
        auto p = s.first.find( "_0x" ); if ( p == std::string::npos ) continue;
        Fn f{ s.first, s.first.substr( 0, p ), 0, 0, 0 }; int n = sscanf( s.first.c_str() + p, "_0x%x_%u_%u", &f.addr, &f.hi, &f.lo ); if ( n == 2 ) f.lo = f.hi; if ( n == 1 ) { f.lo = 0; f.hi = f.op.find( "16" ) != std::string::npos ? 15 : 7; }
        v.push_back( f );
    }
    return v;
}
// one call: previous content 'old', argument v; everything the call may change is 'expected'
static void one( Fn const & f, unsigned old, unsigned v )
{
    auto & b = board(); auto & m = b.m; bool wide = f.op.find( "16" ) != std::string::npos; unsigned w = f.hi - f.lo + 1, max = ( 1u << w ) - 1, mask = max << f.lo, all = wide ? 0xffff : 0xff;
    m.io[ f.addr ] = uint8_t( old ); if ( wide ) m.io[ f.addr + 1 ] = uint8_t( old >> 8 );
    uint8_t before[256]; memcpy( before, m.io, 256 );
    std::string const & o = f.op; bool ok; bool arg = o == "wr" || o == "lz" || o == "wr8" || o == "lz8" || o == "ww" || o == "w"; bool arg16 = o == "wr16" || o == "wt16" || o == "lz16";
    if ( arg ) ok = b.call( f.name, { b.a8( v ) } ); else if ( arg16 ) ok = b.call( f.name, { b.a16( v ) } ); else ok = b.call( f.name );
    if ( !ok ) { vm::fail( "firmware:" + o, "%s( %u ): %s", f.name.c_str(), v, m.bad.c_str() ); return; }
    bool reads = o == "rd" || o == "rd8" || o == "rd16" || o == "rt16" || o == "r" || o == "w1r" || o == "w0r" || o == "rcr" || o == "rsr" || o == "rtr";
    unsigned want = old; bool inrange = v <= max, dontcare = false;
    if ( reads ) ;
    else if ( arg || arg16 ) { bool bit = w == 1 && ( o == "wr" || o == "ww" || o == "wr16" ); unsigned x = bit ? v != 0 : v; if ( !bit && !inrange ) dontcare = true; want = ( old & ~mask ) | ( ( x << f.lo ) & mask ); }
    else if ( o == "set" || o == "set16" || o == "one" || o == "ws" || o == "rss" || o == "rtt" || o == "w1c" ) want = old | mask;
    else if ( o == "clr" || o == "clr16" || o == "nul" || o == "wc" || o == "w0c" ) want = old & ~mask;
    else if ( o == "tog" || o == "tog16" ) want = old ^ mask;
    else { vm::fail( "harness", "unknown operation %s", o.c_str() ); return; }
    unsigned now = m.io[ f.addr ] | ( wide ? m.io[ f.addr + 1 ] << 8 : 0 ); want &= all;
    auto show = [&] { return avr::logstr( m.log ); };
    if ( dontcare ? ( now & all & ~mask ) != ( old & all & ~mask ) : now != want )
        vm::fail( "field-value:" + o, "%s( 0x%x ) on 0x%0*x: register becomes 0x%0*x instead of 0x%0*x;%s", f.name.c_str(), v, wide ? 4 : 2, old, wide ? 4 : 2, now, wide ? 4 : 2, want, show().c_str() );
    if ( reads )
    {
        unsigned got = wide ? b.ret16() : b.ret8(); if ( got != ( old & mask ) >> f.lo ) vm::fail( "read-value:" + o, "%s() on 0x%x gives 0x%x instead of 0x%x", f.name.c_str(), old, got, ( old & mask ) >> f.lo );
    }
    unsigned nw = 0; bool twice = false, foreign = false; unsigned wlo = 0, whi = 0;
    for ( auto & a : m.log )
    {
        vm::event();
        if ( a.addr != f.addr && !( wide && a.addr == f.addr + 1 ) ) foreign = true;
        if ( a.kind == 'w' || a.kind == 's' || a.kind == 'c' ) { ++nw; if ( a.addr == f.addr ) ++wlo; else ++whi; }
    }
    twice = wlo > 1 || whi > 1;
    if ( foreign ) vm::fail( "other-register:" + o, "%s accesses another register:%s", f.name.c_str(), show().c_str() );
    if ( reads && nw ) vm::fail( "read-writes:" + o, "%s writes:%s", f.name.c_str(), show().c_str() );
    if ( !reads && ( !nw || twice ) ) vm::fail( "write-count:" + o, "%s writes %u times:%s", f.name.c_str(), nw, show().c_str() );
    before[ f.addr ] = m.io[ f.addr ]; if ( wide ) before[ f.addr + 1 ] = m.io[ f.addr + 1 ];
    if ( memcmp( before, m.io, 256 ) ) { vm::fail( "other-register:" + o, "%s changes another register", f.name.c_str() ); }
    vm::distinct( vm::mix( vm::mix( vm::strhash( f.name.c_str() ), old ), v ) );
}
GROUP( fields, 1400, 1400 )
{
    auto & l = fns(); size_t i = size_t( vm::st().idx ); if ( i >= l.size() ) return; Fn const & f = l[ i ]; auto & m = board().m; board().reset();
    for ( int a = 0x20; a < 256; ++a ) m.io[ a ] = uint8_t( g.next() );
    bool wide = f.op.find( "16" ) != std::string::npos; unsigned w = f.hi - f.lo + 1; long vals = 1L << w;
    bool arg = f.op[0] == 'w' || f.op[0] == 'l'; if ( f.op == "ws" || f.op == "wc" || f.op.substr( 0, 2 ) == "w1" || f.op.substr( 0, 2 ) == "w0" ) arg = false;
    unsigned all = wide ? 0xffff : 0xff;
    if ( !wide && vm::st().thorough ) { for ( unsigned old = 0; old < 256; ++old ) for ( long v = 0; v < ( arg ? 256 : 1 ); ++v ) one( f, old, unsigned( v ) ); }
    else if ( !wide && !arg ) for ( unsigned old = 0; old < 256; ++old ) one( f, old, 0 );
    else if ( !wide ) { for ( long v = 0; v < vals; ++v ) { one( f, unsigned( g.next() & 255 ), unsigned( v ) ); one( f, 0, unsigned( v ) ); one( f, 255, unsigned( v ) ); } for ( int k = 0; k < 60; ++k ) one( f, unsigned( g.next() & 255 ), unsigned( g.p( .8 ) ? g.next() % uint64_t( vals ) : g.next() & 255 ) ); }
    else
    {
        int n = vm::st().thorough ? 4000 : 120;
        for ( int k = 0; k < n; ++k ) { unsigned old = g.p( .2 ) ? ( g.p( .5 ) ? 0 : all ) : unsigned( g.next() & all ), v = g.p( .8 ) ? unsigned( g.next() % uint64_t( vals ) ) : unsigned( g.next() & all ); one( f, old, v ); }
    }
    vm::counter( "functions" ); vm::sample( "%s for all values and previous contents", f.name.c_str() );
}
// compile-time helpers, evaluated at run time on the device
GROUP( helpers, 400, 4000 )
{
    auto & b = board(); auto bad = [&]( const char * what, unsigned a, unsigned c, unsigned d, unsigned got, unsigned want ) { if ( got != want ) vm::fail( std::string( "helper:" ) + what, "%s( %u, %u, %u ) gives 0x%x instead of 0x%x", what, a, c, d, got, want ); vm::event(); };
    unsigned x = unsigned( g.i( 0, 7 ) ), y = unsigned( g.i( 0, 7 ) ), z = unsigned( g.i( 0, 7 ) ), X = unsigned( g.i( 0, 15 ) ), Y = unsigned( g.i( 0, 15 ) ), v = unsigned( g.next() & 0xffff ), hi = std::max( x, y ), lo = std::min( x, y ), HI = std::max( X, Y ), LO = std::min( X, Y );
    auto rng = []( unsigned h, unsigned l ) { return ( ( 2u << h ) - 1 ) & ~( ( 1u << l ) - 1 ); };
    auto c8 = [&]( const char * f, std::vector<Board<Cpu>::Arg> a ) { if ( !b.call( f, a ) ) vm::fail( "firmware", "%s: %s", f, b.m.bad.c_str() ); return unsigned( b.ret8() ); };
    auto c16 = [&]( const char * f, std::vector<Board<Cpu>::Arg> a ) { if ( !b.call( f, a ) ) vm::fail( "firmware", "%s: %s", f, b.m.bad.c_str() ); return unsigned( b.ret16() ); };
    bad( "bitmask8", x, 0, 0, c8( "bm8_1", { b.a8( x ) } ), 1u << x ); bad( "bitmask8", x, y, 0, c8( "bm8_2", { b.a8( x ), b.a8( y ) } ), 1u << x | 1u << y );
    bad( "bitmask8", x, y, z, c8( "bm8_3", { b.a8( x ), b.a8( y ), b.a8( z ) } ), 1u << x | 1u << y | 1u << z ); bad( "bitmask_n8", x, y, 0, c8( "bmn8", { b.a8( x ), b.a8( y ) } ), 255 & ~( 1u << x | 1u << y ) );
    bad( "bitmask16", X, Y, 0, c16( "bm16", { b.a8( X ), b.a8( Y ) } ), 1u << X | 1u << Y ); bad( "bitmask_n16", X, Y, 0, c16( "bmn16", { b.a8( X ), b.a8( Y ) } ), 0xffff & ~( 1u << X | 1u << Y ) );
    bad( "rngmask8", hi, lo, 0, c8( "rm8", { b.a8( hi ), b.a8( lo ) } ), rng( hi, lo ) ); bad( "rngmask_n8", hi, lo, 0, c8( "rmn8", { b.a8( hi ), b.a8( lo ) } ), 255 & ~rng( hi, lo ) );
    bad( "rngmask16", HI, LO, 0, c16( "rm16", { b.a8( HI ), b.a8( LO ) } ), rng( HI, LO ) ); bad( "rngmask_n16", HI, LO, 0, c16( "rmn16", { b.a8( HI ), b.a8( LO ) } ), 0xffff & ~rng( HI, LO ) );
    bad( "shl8", v & 255, x, 0, c8( "shl8", { b.a8( v ), b.a8( x ) } ), ( v & 255 ) << x & 255 ); bad( "shr8", v & 255, x, 0, c8( "shr8", { b.a8( v ), b.a8( x ) } ), ( v & 255 ) >> x );
    bad( "shl16", v, X, 0, c16( "shl16", { b.a16( v ), b.a8( X ) } ), v << X & 0xffff ); bad( "shr16", v, X, 0, c16( "shr16", { b.a16( v ), b.a8( X ) } ), v >> X );
    bad( "bits8", 0, 0, 0, c8( "bits8", {} ), 8 ); bad( "bits16", 0, 0, 0, c8( "bits16", {} ), 16 );
    vm::distinct( vm::mix( v, X * 4096 + Y * 256 + x * 32 + y ) );
}
// several fields edited in turn: the last content of every field is the last value written to it
GROUP( sequences, 300, 8000 )
{
    auto & b = board(); b.reset(); auto & m = b.m; unsigned a = unsigned( g.i( 0, 7 ) ), c = unsigned( g.next() & 255 ), r = unsigned( g.next() & 255 ), q = unsigned( g.next() & 255 ); m.io[ 0xb3 ] = uint8_t( r ); m.io[ 0x4a ] = uint8_t( q );
    if ( !b.call( "mixed", { b.a8( a ), b.a8( c ) } ) ) { vm::fail( "firmware:mixed", "%s", m.bad.c_str() ); return; }
    unsigned wr = ( r & ~0x3cu ) | a << 3 | ( c & 1 ? 0 : 4 ), wq = ( q & 0x3f ) | ( a & 3 ) << 6;
    if ( m.io[ 0xb3 ] != wr || m.io[ 0x4a ] != wq || b.ret8() != ( ( a & 3 ) + a ) ) vm::fail( "sequence", "edits of three fields leave 0x%02x, 0x%02x (result %u) instead of 0x%02x, 0x%02x (%u)", m.io[ 0xb3 ], m.io[ 0x4a ], b.ret8(), wr, wq, ( a & 3 ) + a );
    // a random series of calls of many field functions on shared registers against a model
    auto & l = fns(); uint8_t model[256]; for ( int k = 0x20; k < 256; ++k ) model[ k ] = m.io[ k ] = uint8_t( g.next() );
    for ( int k = 0; k < 25; ++k )
    {
        Fn const & f = l[ g.next() % l.size() ]; if ( f.op != "wr" && f.op != "lz" && f.op != "set" && f.op != "clr" && f.op != "tog" ) continue;
        unsigned v = unsigned( g.next() & ( ( 1u << ( f.hi - f.lo + 1 ) ) - 1 ) ), mask = ( ( 1u << ( f.hi - f.lo + 1 ) ) - 1 ) << f.lo; uint8_t & x = model[ f.addr ];
        if ( f.op == "set" ) x |= uint8_t( mask ); else if ( f.op == "clr" ) x &= uint8_t( ~mask ); else if ( f.op == "tog" ) x ^= uint8_t( mask ); else x = uint8_t( ( x & ~mask ) | v << f.lo );
        if ( !b.call( f.name, f.op == "wr" || f.op == "lz" ? std::vector<Board<Cpu>::Arg>{ b.a8( v ) } : std::vector<Board<Cpu>::Arg>{} ) ) vm::fail( "firmware:" + f.op, "%s", m.bad.c_str() );
        if ( memcmp( model + 0x20, m.io + 0x20, 224 ) ) { vm::fail( "sequence", "after %s( %u ) the registers differ from the model", f.name.c_str(), v ); return; }
    }
    vm::distinct( vm::mix( g.next(), 5 ) );
}
VMON_MAIN
