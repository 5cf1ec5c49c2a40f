// An ATmega328P in software: the complete avr5 instruction set with cycle counts, data memory,
// interrupts, an ELF loader and an access log. It executes the firmware the real avr-g++ builds
// from the library; the monitors observe every load and store it makes.
#ifndef EMU_AVR_HPP
#define EMU_AVR_HPP
#include "vmon.hpp"
#include <functional>

namespace avr {

enum : uint16_t { IO0 = 0x20, RAM0 = 0x100, RAMEND = 0x8ff, SREG = 0x5f, SPL = 0x5d, SPH = 0x5e };

struct Acc { uint64_t cyc; char kind; uint16_t addr; uint8_t val; uint32_t pc; };   // kind: r, w, s(bi), c(bi), t(est of one bit)

struct Elf
{
    std::vector<uint8_t> flash = std::vector<uint8_t>( 32768, 0xff ); uint32_t text_end = 0;
    struct Sym { uint32_t addr, size; bool func; };
    std::map<std::string, Sym> sym; bool ok = false; std::string why;
    static uint32_t u32( uint8_t const * p ) { return p[0] | p[1] << 8 | p[2] << 16 | uint32_t( p[3] ) << 24; }
    static uint16_t u16( uint8_t const * p ) { return uint16_t( p[0] | p[1] << 8 ); }
    explicit Elf( std::string const & path )
    {
        FILE * f = fopen( path.c_str(), "rb" ); if ( !f ) { why = "cannot open " + path; return; }
        std::vector<uint8_t> b; uint8_t buf[65536]; size_t n; while ( ( n = fread( buf, 1, sizeof buf, f ) ) > 0 ) b.insert( b.end(), buf, buf + n ); fclose( f );
        if ( b.size() < 52 || memcmp( b.data(), "\177ELF\1\1", 6 ) || u16( &b[18] ) != 83 ) { why = "not an AVR ELF file"; return; }
        uint32_t ph = u32( &b[28] ), sh = u32( &b[32] ); int phn = u16( &b[44] ), shn = u16( &b[48] );
        for ( int i = 0; i < phn; ++i )
        {
            uint8_t * p = &b[ ph + 32u * unsigned( i ) ]; uint32_t off = u32( p + 4 ), va = u32( p + 8 ), pa = u32( p + 12 ), fs = u32( p + 16 );
            if ( u32( p ) != 1 || !fs || pa >= 0x800000 ) continue;
            if ( pa + fs > flash.size() ) { why = "does not fit the flash"; return; }
            memcpy( &flash[ pa ], &b[ off ], fs ); if ( va < 0x800000 && pa + fs > text_end ) text_end = pa + fs;
        }
        for ( int i = 0; i < shn; ++i )
        {
            uint8_t * s = &b[ sh + 40u * unsigned( i ) ]; if ( u32( s + 4 ) != 2 ) continue;
            uint8_t * st = &b[ sh + 40u * u32( s + 24 ) ]; uint32_t so = u32( st + 16 ), off = u32( s + 16 ), sz = u32( s + 20 );
            for ( uint32_t k = 0; k + 16 <= sz; k += 16 ) { uint8_t * e = &b[ off + k ]; std::string nm = (char *)&b[ so + u32( e ) ]; if ( !nm.empty() ) sym[ nm ] = { u32( e + 4 ), u32( e + 8 ), ( e[12] & 15 ) == 2 }; }
        }
        ok = true;
    }
};

struct Cpu
{
    // machine state
    uint8_t r[32] = {}, io[256] = {}, ram[0x900] = {}, sreg = 0; uint16_t sp = RAMEND; uint32_t pc = 0; uint64_t cyc = 0, icount = 0;
    std::vector<uint16_t> flash = std::vector<uint16_t>( 16384, 0xffff ); uint32_t text_end = 32768;
    bool hold = false, halted = false, sleeping = false;
    // observation
    bool logging = false; std::vector<Acc> log; std::string bad; uint16_t min_sp = RAMEND, ram_lo = RAM0; uint64_t stores = 0, irqs = 0;
    std::function<void( Cpu & )> boundary;   // called before every instruction
    uint32_t ipc = 0;

    virtual ~Cpu() {}
    // device behaviour; the plain device is storage
    virtual uint8_t ioread( uint16_t a ) { return io[ a ]; }
    virtual void iowrite( uint16_t a, uint8_t v ) { io[ a ] = v; }
    virtual void iobit( uint16_t a, int bit, bool v ) { if ( v ) io[ a ] |= uint8_t( 1 << bit ); else io[ a ] &= uint8_t( ~( 1 << bit ) ); }
    virtual bool ioprobe( uint16_t a, int bit ) { return io[ a ] >> bit & 1; }
    virtual void tick( unsigned ) {}
    virtual int irq() { return -1; }        // vector number wanting service
    virtual void ack( int ) {}

    void load( Elf const & e ) { for ( size_t i = 0; i < 16384; ++i ) flash[ i ] = uint16_t( e.flash[ 2 * i ] | e.flash[ 2 * i + 1 ] << 8 ); text_end = e.text_end; auto it = e.sym.find( "__bss_end" ); if ( it != e.sym.end() ) ram_lo = uint16_t( it->second.addr ); }
    void err( std::string const & s ) { if ( bad.empty() ) bad = s + vm::fmt( " (at 0x%04x)", ipc * 2 ); halted = true; }
    void note( char k, uint16_t a, uint8_t v ) { if ( logging ) log.push_back( { cyc, k, a, v, ipc * 2 } ); }

    uint8_t rd( uint16_t a )
    {
        uint8_t v = 0;
        if ( a >= RAM0 ) { if ( a > RAMEND ) { err( vm::fmt( "load from 0x%04x beyond data memory", a ) ); return 0; } return ram[ a ]; }
        if ( a < IO0 ) v = r[ a ]; else if ( a == SREG ) v = sreg; else if ( a == SPL ) v = uint8_t( sp ); else if ( a == SPH ) v = uint8_t( sp >> 8 ); else v = ioread( a );
        note( 'r', a, v ); return v;
    }
    void setsreg( uint8_t v ) { if ( ( v & 0x80 ) && !( sreg & 0x80 ) ) hold = true; sreg = v; }
    void setsp( uint16_t v ) { sp = v; if ( sp < min_sp ) min_sp = sp; }
    void wr( uint16_t a, uint8_t v )
    {
        ++stores;
        if ( a >= RAM0 ) { if ( a > RAMEND ) { err( vm::fmt( "store to 0x%04x beyond data memory", a ) ); return; } ram[ a ] = v; return; }
        note( 'w', a, v );
        if ( a < IO0 ) r[ a ] = v; else if ( a == SREG ) setsreg( v ); else if ( a == SPL ) setsp( uint16_t( ( sp & 0xff00 ) | v ) ); else if ( a == SPH ) setsp( uint16_t( ( sp & 0xff ) | v << 8 ) ); else iowrite( a, v );
    }
    void push( uint8_t v ) { if ( sp < ram_lo || sp > RAMEND ) { err( vm::fmt( "stack overflow: push at 0x%04x, data ends at 0x%04x", sp, ram_lo ) ); return; } ram[ sp ] = v; --sp; if ( sp < min_sp ) min_sp = sp; }
    uint8_t pop() { ++sp; if ( sp > RAMEND ) { err( "stack underflow" ); return 0; } return ram[ sp ]; }
    void pushpc( uint32_t p ) { push( uint8_t( p ) ); push( uint8_t( p >> 8 ) ); }
    uint32_t poppc() { uint32_t h = pop(); uint32_t l = pop(); return ( h << 8 | l ) & 0x3fff; }

    enum { C = 1, Z = 2, N = 4, V = 8, S = 16, H = 32, T = 64, I = 128 };
    void fl( uint8_t mask, uint8_t val ) { sreg = uint8_t( ( sreg & ~mask ) | ( val & mask ) ); }
    static uint8_t nzs( uint8_t v, bool vf ) { bool n = v & 0x80; return uint8_t( ( v ? 0 : Z ) | ( n ? N : 0 ) | ( vf ? V : 0 ) | ( n != vf ? S : 0 ) ); }
    uint8_t add( uint8_t a, uint8_t b, int c )
    {
        unsigned w = unsigned( a ) + b + unsigned( c ); uint8_t v = uint8_t( w ); bool vf = ~( a ^ b ) & ( a ^ v ) & 0x80;
        fl( C | Z | N | V | S | H, uint8_t( nzs( v, vf ) | ( w > 255 ? C : 0 ) | ( ( a & 15 ) + ( b & 15 ) + c > 15 ? H : 0 ) ) ); return v;
    }
    uint8_t sub( uint8_t a, uint8_t b, int c, bool keepz )
    {
        int w = int( a ) - b - c; uint8_t v = uint8_t( w ); bool vf = ( a ^ b ) & ( a ^ v ) & 0x80; uint8_t f = uint8_t( nzs( v, vf ) | ( w < 0 ? C : 0 ) | ( ( a & 15 ) - ( b & 15 ) - c < 0 ? H : 0 ) );
        if ( keepz && ( f & Z ) && !( sreg & Z ) ) f &= uint8_t( ~Z );
        fl( C | Z | N | V | S | H, f ); return v;
    }
    void logic( uint8_t v ) { fl( Z | N | V | S, nzs( v, false ) ); }
    uint16_t pair( int i ) const { return uint16_t( r[ i ] | r[ i + 1 ] << 8 ); }
    void setpair( int i, uint16_t v ) { r[ i ] = uint8_t( v ); r[ i + 1 ] = uint8_t( v >> 8 ); }
    static bool two( uint16_t op ) { return ( op & 0xfe0f ) == 0x9000 || ( op & 0xfe0f ) == 0x9200 || ( op & 0xfe0c ) == 0x940c; }
    unsigned skip() { unsigned k = two( flash[ pc & 0x3fff ] ) ? 2 : 1; pc += k; return k; }
    uint8_t lpm( uint16_t a ) { if ( a >= 32768 ) { err( "lpm beyond flash" ); return 0; } uint16_t w = flash[ a >> 1 ]; return uint8_t( a & 1 ? w >> 8 : w ); }

    void step()
    {
        if ( halted ) return;
        if ( boundary ) { boundary( *this ); if ( halted ) return; }
        if ( hold ) hold = false;
        else if ( sreg & I )
        {
            int v = irq();
            if ( v >= 0 ) { sleeping = false; ack( v ); ipc = pc; pushpc( pc ); sreg &= uint8_t( ~I ); pc = uint32_t( v ) * 2; cyc += 4; tick( 4 ); ++irqs; if ( halted ) return; }
        }
        if ( sleeping ) { ++cyc; tick( 1 ); return; }
        ipc = pc; ++icount;
        if ( pc * 2 >= text_end ) { err( "program counter outside the program" ); return; }
        uint16_t op = flash[ pc ]; ++pc; unsigned n = exec( op ); pc &= 0x3fff; cyc += n; tick( n );
    }
    unsigned exec( uint16_t op )
    {
        int d = op >> 4 & 31, s = ( op & 15 ) | ( op >> 5 & 16 ), dh = 16 + ( op >> 4 & 15 ); uint8_t k = uint8_t( ( op & 15 ) | ( op >> 4 & 0xf0 ) );
        switch ( op >> 10 )
        {
            case 0:
                if ( op == 0 ) return 1;
                if ( ( op & 0xff00 ) == 0x0100 ) { setpair( ( op >> 4 & 15 ) * 2, pair( ( op & 15 ) * 2 ) ); return 1; }
                if ( ( op & 0xff00 ) == 0x0200 ) { int p = int8_t( r[ dh ] ) * int8_t( r[ 16 + ( op & 15 ) ] ); setpair( 0, uint16_t( p ) ); fl( C | Z, uint8_t( ( p & 0x8000 ? C : 0 ) | ( ( p & 0xffff ) ? 0 : Z ) ) ); return 2; }
                if ( ( op & 0xff00 ) == 0x0300 )
                {
                    int a = 16 + ( op >> 4 & 7 ), b = 16 + ( op & 7 ), p, m = ( op >> 6 & 2 ) | ( op >> 3 & 1 );
                    if ( m == 0 ) p = int8_t( r[ a ] ) * r[ b ];            // mulsu
                    else if ( m == 1 ) p = r[ a ] * r[ b ];                 // fmul
                    else if ( m == 2 ) p = int8_t( r[ a ] ) * int8_t( r[ b ] );
                    else p = int8_t( r[ a ] ) * r[ b ];
                    bool c = p & 0x8000; if ( m ) p <<= 1; setpair( 0, uint16_t( p ) ); fl( C | Z, uint8_t( ( c ? C : 0 ) | ( ( p & 0xffff ) ? 0 : Z ) ) ); return 2;
                }
                break;
            case 1: sub( r[ d ], r[ s ], sreg & C, true ); return 1;                       // cpc
            case 2: r[ d ] = sub( r[ d ], r[ s ], sreg & C, true ); return 1;              // sbc
            case 3: r[ d ] = add( r[ d ], r[ s ], 0 ); return 1;
            case 4: if ( r[ d ] == r[ s ] ) return 1 + skip(); return 1;                    // cpse
            case 5: sub( r[ d ], r[ s ], 0, false ); return 1;                             // cp
            case 6: r[ d ] = sub( r[ d ], r[ s ], 0, false ); return 1;
            case 7: r[ d ] = add( r[ d ], r[ s ], sreg & C ); return 1;                    // adc
            case 8: r[ d ] &= r[ s ]; logic( r[ d ] ); return 1;
            case 9: r[ d ] ^= r[ s ]; logic( r[ d ] ); return 1;
            case 10: r[ d ] |= r[ s ]; logic( r[ d ] ); return 1;
            case 11: r[ d ] = r[ s ]; return 1;
            case 12: case 13: case 14: case 15: sub( r[ dh ], k, 0, false ); return 1;      // cpi
            case 16: case 17: case 18: case 19: r[ dh ] = sub( r[ dh ], k, sreg & C, true ); return 1;
            case 20: case 21: case 22: case 23: r[ dh ] = sub( r[ dh ], k, 0, false ); return 1;
            case 24: case 25: case 26: case 27: r[ dh ] |= k; logic( r[ dh ] ); return 1;
            case 28: case 29: case 30: case 31: r[ dh ] &= k; logic( r[ dh ] ); return 1;
            case 32: case 33: case 34: case 35: case 40: case 41: case 42: case 43:         // ldd, std
            {
                unsigned q = ( op & 7 ) | ( op >> 7 & 0x18 ) | ( op >> 8 & 0x20 ); uint16_t a = uint16_t( pair( op & 8 ? 28 : 30 ) + q );
                if ( op & 0x200 ) wr( a, r[ d ] ); else r[ d ] = rd( a );
                return 2;
            }
            case 36: return memop( op, d );
            case 37: return misc( op, d );
            case 38: case 39:
                if ( op >> 10 == 39 ) { uint16_t p = uint16_t( r[ d ] * r[ s ] ); setpair( 0, p ); fl( C | Z, uint8_t( ( p & 0x8000 ? C : 0 ) | ( p ? 0 : Z ) ) ); return 2; }   // mul
                {
                    uint16_t a = uint16_t( IO0 + ( op >> 3 & 31 ) ); int bit = op & 7;
                    switch ( op >> 8 & 3 )
                    {
                        case 0: note( 'c', a, uint8_t( bit ) ); ++stores; iobit( a, bit, false ); return 2;
                        case 2: note( 's', a, uint8_t( bit ) ); ++stores; iobit( a, bit, true ); return 2;
                        default: { bool v = ioprobe( a, bit ); note( 't', a, uint8_t( bit ) ); if ( v == bool( op & 0x200 ) ) return 1 + skip(); return 1; }
                    }
                }
            case 44: case 45: r[ d ] = rd( uint16_t( IO0 + ( ( op & 15 ) | ( op >> 5 & 0x30 ) ) ) ); return 1;   // in
            case 46: case 47: wr( uint16_t( IO0 + ( ( op & 15 ) | ( op >> 5 & 0x30 ) ) ), r[ d ] ); return 1;    // out
            case 48: case 49: case 50: case 51: pc += uint32_t( int( unsigned( op ) << 20 ) >> 20 ); return 2;               // rjmp
            case 52: case 53: case 54: case 55: pushpc( pc ); pc += uint32_t( int( unsigned( op ) << 20 ) >> 20 ); return 3;
            case 56: case 57: case 58: case 59: r[ dh ] = k; return 1;
            case 60: case 61: { bool set = sreg >> ( op & 7 ) & 1; bool want = !( op & 0x400 ); if ( set == want ) { pc += uint32_t( int( unsigned( op >> 3 & 127 ) << 25 ) >> 25 ); return 2; } return 1; }
            case 62: if ( op & 8 ) break; if ( op & 0x200 ) fl( T, r[ d ] >> ( op & 7 ) & 1 ? T : 0 ); else { uint8_t m = uint8_t( 1 << ( op & 7 ) ); r[ d ] = uint8_t( ( r[ d ] & ~m ) | ( sreg & T ? m : 0 ) ); } return 1;
            case 63: if ( op & 8 ) break; if ( bool( r[ d ] >> ( op & 7 ) & 1 ) == bool( op & 0x200 ) ) return 1 + skip(); return 1;
        }
        err( vm::fmt( "illegal instruction 0x%04x", op ) ); return 1;
    }
    unsigned memop( uint16_t op, int d )
    {
        bool st = op & 0x200; int x = -1, pre = 0, post = 0;
        switch ( op & 15 )
        {
            case 0: { uint16_t a = flash[ pc & 0x3fff ]; ++pc; if ( st ) wr( a, r[ d ] ); else r[ d ] = rd( a ); return 2; }
            case 1: x = 30; post = 1; break;   case 2: x = 30; pre = 1; break;
            case 9: x = 28; post = 1; break;   case 10: x = 28; pre = 1; break;
            case 12: x = 26; break;            case 13: x = 26; post = 1; break;   case 14: x = 26; pre = 1; break;
            case 4: if ( !st ) { r[ d ] = lpm( pair( 30 ) ); return 3; } break;
            case 5: if ( !st ) { uint16_t z = pair( 30 ); uint8_t v = lpm( z ); setpair( 30, uint16_t( z + 1 ) ); r[ d ] = v; return 3; } break;
            case 15: if ( st ) push( r[ d ] ); else r[ d ] = pop(); return 2;
        }
        if ( x < 0 ) { err( vm::fmt( "illegal instruction 0x%04x", op ) ); return 1; }
        uint16_t a = pair( x ); if ( pre ) setpair( x, --a );
        if ( st ) wr( a, r[ d ] ); else { uint8_t v = rd( a ); if ( post ) setpair( x, uint16_t( a + 1 ) ); r[ d ] = v; return 2; }
        if ( post ) setpair( x, uint16_t( a + 1 ) );
        return 2;
    }
    unsigned misc( uint16_t op, int d )
    {
        if ( ( op & 0xff8f ) == 0x9408 ) { setsreg( uint8_t( sreg | 1 << ( op >> 4 & 7 ) ) ); if ( ( op >> 4 & 7 ) == 7 ) note( 's', SREG, 7 ); return 1; }      // bset
        if ( ( op & 0xff8f ) == 0x9488 ) { sreg &= uint8_t( ~( 1 << ( op >> 4 & 7 ) ) ); if ( ( op >> 4 & 7 ) == 7 ) note( 'c', SREG, 7 ); return 1; }          // bclr
        switch ( op )
        {
            case 0x9508: pc = poppc(); return 4;
            case 0x9518: pc = poppc(); setsreg( sreg | I ); hold = true; return 4;
            case 0x9588: sleeping = true; return 1;
            case 0x9598: halted = true; return 1;                          // break
            case 0x95a8: return 1;                                         // wdr
            case 0x95c8: r[0] = lpm( pair( 30 ) ); return 3;
            case 0x9409: pc = pair( 30 ) & 0x3fff; return 2;
            case 0x9509: pushpc( pc ); pc = pair( 30 ) & 0x3fff; return 3;
        }
        switch ( op & 15 )
        {
            case 12: case 13: if ( ( op & 0xfe0e ) == 0x940c ) { uint32_t a = flash[ pc & 0x3fff ]; ++pc; pc = a & 0x3fff; return 3; } break;
            case 14: case 15: if ( ( op & 0xfe0e ) == 0x940e ) { uint32_t a = flash[ pc & 0x3fff ]; ++pc; pushpc( pc ); pc = a & 0x3fff; return 4; } break;
        }
        if ( ( op & 0xff00 ) == 0x9600 || ( op & 0xff00 ) == 0x9700 )                                                                             // adiw, sbiw
        {
            int p = 24 + ( op >> 4 & 3 ) * 2; unsigned k = ( op & 15 ) | ( op >> 2 & 0x30 ); uint16_t a = pair( p ), v; bool vf, c;
            if ( op & 0x100 ) { v = uint16_t( a - k ); vf = ( a & ~v ) & 0x8000; c = ( v & ~a ) & 0x8000; } else { v = uint16_t( a + k ); vf = ( v & ~a ) & 0x8000; c = ( ~v & a ) & 0x8000; }
            setpair( p, v ); bool n = v & 0x8000; fl( C | Z | N | V | S, uint8_t( ( c ? C : 0 ) | ( v ? 0 : Z ) | ( n ? N : 0 ) | ( vf ? V : 0 ) | ( n != vf ? S : 0 ) ) ); return 2;
        }
        if ( ( op & 0xfe00 ) == 0x9400 )
        {
            uint8_t a = r[ d ], v;
            switch ( op & 15 )
            {
                case 0: v = uint8_t( ~a ); r[ d ] = v; fl( C | Z | N | V | S, uint8_t( nzs( v, false ) | C ) ); return 1;
                case 1: v = uint8_t( -a ); r[ d ] = v; fl( C | Z | N | V | S | H, uint8_t( nzs( v, v == 0x80 ) | ( v ? C : 0 ) | ( ( v | a ) & 8 ? H : 0 ) ) ); return 1;
                case 2: r[ d ] = uint8_t( a << 4 | a >> 4 ); return 1;
                case 3: v = uint8_t( a + 1 ); r[ d ] = v; fl( Z | N | V | S, nzs( v, v == 0x80 ) ); return 1;
                case 5: case 6: case 7:
                {
                    bool c = a & 1; v = uint8_t( a >> 1 ); if ( ( op & 15 ) == 5 ) v |= a & 0x80; if ( ( op & 15 ) == 7 && ( sreg & C ) ) v |= 0x80;
                    r[ d ] = v; bool n = v & 0x80; fl( C | Z | N | V | S, uint8_t( nzs( v, n != c ) | ( c ? C : 0 ) ) ); return 1;
                }
                case 10: v = uint8_t( a - 1 ); r[ d ] = v; fl( Z | N | V | S, nzs( v, v == 0x7f ) ); return 1;
            }
        }
        err( vm::fmt( "illegal instruction 0x%04x", op ) ); return 1;
    }
};

// A firmware image and a machine it has been started on, ready to have its functions called.
enum { SENTINEL = 0x3ffe };
template< class Dev > struct Board
{
    Dev m; Elf const & e; Dev boot;
    explicit Board( Elf const & elf ) : e( elf )
    {
        m.load( e );
        for ( long k = 0; k < 3000000 && !m.halted; ++k ) m.step();
        if ( !m.halted || !m.bad.empty() ) { vm::fail( "startup", "firmware does not reach its ready point: %s", m.bad.c_str() ); }
        m.halted = false; boot = m;
    }
    void reset() { m = boot; }
    uint16_t var( std::string const & s ) const { auto it = e.sym.find( s ); if ( it == e.sym.end() ) { fprintf( stderr, "no symbol %s\n", s.c_str() ); exit( 3 ); } return uint16_t( it->second.addr ); }
    bool has( std::string const & s ) const { return e.sym.count( s ); }
    uint32_t fn( std::string const & s ) const { return var( s ) / 2u; }
    struct Arg { uint64_t v; int size; };
    static Arg a8( unsigned v ) { return { v & 0xff, 1 }; }
    static Arg a16( unsigned v ) { return { v & 0xffff, 2 }; }
    static Arg a32( uint32_t v ) { return { v, 4 }; }
    // Call a function by the avr-gcc ABI; returns false when it goes wrong (reported under 'key').
    bool abi = true; uint64_t limit = 2000000;
    bool call( std::string const & name, std::vector<Arg> args = {}, uint8_t sreg_in = 0, std::function<bool()> stop = {} )
    {
        uint8_t saved[32]; uint64_t h = vm::strhash( name.c_str() ) + m.icount;
        for ( int i = 0; i < 32; ++i ) { h = vm::mix( h, uint64_t( i ) ); m.r[ i ] = uint8_t( h >> 20 ); }
        m.r[1] = 0; int reg = 26;
        for ( auto & a : args ) { reg -= ( a.size + 1 ) & ~1; for ( int i = 0; i < a.size; ++i ) m.r[ reg + i ] = uint8_t( a.v >> 8 * i ); }
        memcpy( saved, m.r, 32 ); uint16_t sp = m.sp; m.sreg = sreg_in; m.hold = false; m.sleeping = false; m.log.clear(); m.logging = true; m.bad.clear(); m.halted = false;
        uint8_t below[0x900]; memcpy( below, m.ram, sizeof below );
        m.pushpc( SENTINEL ); m.pc = fn( name ); uint64_t i0 = m.icount; m.min_sp = m.sp;
        while ( m.pc != SENTINEL && !m.halted ) { m.step(); if ( stop && stop() ) { m.logging = false; m.sp = sp; return true; } if ( m.icount - i0 > limit ) { m.bad = "does not return"; break; } }
        m.logging = false;
        if ( m.pc == SENTINEL && m.bad.empty() && abi )
        {
            if ( m.sp != sp ) m.bad = vm::fmt( "stack pointer is 0x%04x after the call, 0x%04x before", m.sp, sp );
            if ( m.r[1] ) m.bad = "r1 is not zero after the call";
            for ( unsigned a = m.ram_lo; a <= m.min_sp; ++a ) if ( m.ram[ a ] != below[ a ] ) m.bad = vm::fmt( "store to unused memory 0x%04x", a );
            for ( unsigned a = sp + 1u; a <= RAMEND; ++a ) if ( m.ram[ a ] != below[ a ] ) m.bad = vm::fmt( "the caller's stack is changed at 0x%04x", a );
            for ( int i = 2; i < 30; ++i ) if ( ( i < 18 || i > 27 ) && m.r[ i ] != saved[ i ] ) m.bad = vm::fmt( "callee-saved register r%d changed", i );
        }
        bool ok = m.bad.empty(); m.sp = sp; m.halted = false; vm::event();
        return ok;
    }
    uint8_t ret8() const { return m.r[24]; }
    uint16_t ret16() const { return m.pair( 24 ); }
    uint32_t ret32() const { return m.pair( 22 ) | uint32_t( m.pair( 24 ) ) << 16; }
    uint8_t & mem( uint16_t a ) { return m.ram[ a ]; }
    template< class T > T get( uint16_t a ) { T v; memcpy( &v, &m.ram[ a ], sizeof v ); return v; }
    template< class T > void put( uint16_t a, T v ) { memcpy( &m.ram[ a ], &v, sizeof v ); }
};

inline Elf const & firmware( size_t i = 0 )
{
    static std::map<size_t, Elf *> fw;
    auto & p = fw[ i ];
    if ( !p )
    {
        auto & v = vm::st().elf; if ( i >= v.size() ) { fprintf( stderr, "no firmware %zu given (--elf)\n", i ); exit( 3 ); }
        p = new Elf( v[ i ] ); if ( !p->ok ) { fprintf( stderr, "firmware %s: %s\n", v[ i ].c_str(), p->why.c_str() ); exit( 3 ); }
    }
    return *p;
}
inline std::string logstr( std::vector<Acc> const & l, size_t max = 16 )
{
    std::string s; size_t n = 0;
    for ( auto & a : l ) { if ( n++ >= max ) { s += " ..."; break; } s += a.kind == 'r' || a.kind == 'w' ? vm::fmt( " %c[%02x]=%02x", a.kind == 'r' ? 'R' : 'W', a.addr, a.val ) : vm::fmt( " %s[%02x].%d", a.kind == 's' ? "SBI" : a.kind == 'c' ? "CBI" : "SBIx", a.addr, a.val ); }
    return s;
}

} // namespace avr
#endif
