// C38: the numeric library gives the same results on the microcontroller.
#include "../emu/m328.hpp"
#include "../common/c38.hpp"
#include <cmath>
#include <memory>
using avr::Board; using avr::M328;
static void worst( const char * what, double r ) { static std::map<std::string, double> w; if ( getenv( "WORST" ) && r > w[ what ] ) { w[ what ] = r; fprintf( stderr, "%s %.3g\n", what, r ); } }
static Board<M328> & board( int i ) { static std::unique_ptr<Board<M328>> b[6]; if ( !b[i] ) b[i].reset( new Board<M328>( avr::firmware( size_t( i ) ) ) ); return *b[i]; }
// run a device function on 'in'; its outputs; memory outside 'out' must not change and no device register be touched
static bool device( int fw, std::string const & f, uint8_t arg, int32_t const * in, int nin, int32_t * out, int nout )
{
    auto & b = board( fw ); auto & m = b.m; b.reset(); b.limit = 20000000; uint16_t ai = b.var( "in" ), ao = b.var( "out" ); memcpy( &m.ram[ ai ], in, size_t( nin ) * 4 ); for ( int i = 0; i < nout; ++i ) out[i] = 0; memset( &m.ram[ ao ], 0, size_t( nout ) * 4 );
    uint8_t before[0x900]; memcpy( before, m.ram, sizeof before ); uint64_t i0 = m.icount; bool ok = b.call( f, { b.a8( arg ) }, 0 ); vm::counter( "device-instructions", m.icount - i0 ); if ( !ok ) { vm::fail( "firmware:" + f, "%s( %d ): %s", f.c_str(), arg, m.bad.c_str() ); return false; }
    for ( unsigned a = avr::RAM0; a < m.ram_lo; ++a ) if ( ( a < ao || a >= ao + unsigned( nout ) * 4 ) && m.ram[ a ] != before[ a ] ) { vm::fail( "memory:" + f, "%s( %d ) changes memory at 0x%04x that is not its own", f.c_str(), arg, a ); return false; }
    for ( auto & e : m.log ) if ( e.kind != 'r' && e.addr != 0x5d && e.addr != 0x5e && e.addr != 0x5f && e.addr >= 0x20 ) { vm::fail( "registers:" + f, "%s( %d ) writes device register %02x", f.c_str(), arg, e.addr ); return false; }
    memcpy( out, &m.ram[ ao ], size_t( nout ) * 4 ); return true;
}
static float fl( int32_t v ) { return c38::get<float>( v ); }
static int32_t bits( float f ) { return c38::put( f ); }
// --- scalars
struct Fmt { const char * f; int bits, frac; void (*host)( uint8_t, int32_t const *, int32_t * ); };
template< class R, int I > void hs( uint8_t op, int32_t const * in, int32_t * out ) { c38::scalar<num::fixed_point<R, I>>( op, in, out ); }
static const Fmt FMTS[] = { { "f8_3", 8, 4, hs<int8_t, 3> }, { "f8_0", 8, 7, hs<int8_t, 0> }, { "f8_7", 8, 0, hs<int8_t, 7> }, { "f16_7", 16, 8, hs<int16_t, 7> }, { "f16_0", 16, 15, hs<int16_t, 0> }, { "f16_12", 16, 3, hs<int16_t, 12> }, { "f32_15", 32, 16, hs<int32_t, 15> }, { "f32_8", 32, 23, hs<int32_t, 8> }, { "f32_1", 32, 30, hs<int32_t, 1> }, { "f32_0", 32, 31, hs<int32_t, 0> } };
static const char * const OPN[] = { "a+b", "a-b", "a*b", "a/b", "-a", "comparison", "as<int8_t>", "as<int16_t>", "as<int32_t>", "as<float>", "as_double", "from int8_t", "from int16_t", "from int32_t", "from float", "from double", "chain", "limits", "with int", "with double" };
typedef __int128 wide;
static int32_t raw( Fmt const & f, vm::Rng & g ) { int64_t hi = ( int64_t( 1 ) << ( f.bits - 1 ) ) - 1; switch ( g.next() % 6 ) { case 0: return int32_t( g.pick( { hi, -hi - 1, int64_t( 0 ), int64_t( 1 ), int64_t( -1 ), hi / 2, -hi / 2 } ) ); case 1: return int32_t( int64_t( g.next() % 16 ) - 8 ); case 2: { int64_t v = int64_t( 1 ) << ( g.next() % unsigned( f.bits - 1 ) ); v += g.i( -1, 1 ); v = g.p( .5 ) ? -v : v; return int32_t( std::min( std::max( v, -hi - 1 ), hi ) ); } default: { int64_t v = int64_t( g.next() & uint64_t( hi ) ) >> ( g.next() % unsigned( f.bits ) ); return int32_t( g.p( .5 ) ? -v : v ); } } }
static bool domain( Fmt const & f, int op, int32_t const * in )
{
    wide hi = ( wide( 1 ) << ( f.bits - 1 ) ) - 1, lo = -hi - 1, a = in[0], b = in[1], c = in[2]; auto in_range = [&]( wide v ) { return v >= lo && v <= hi; };
    switch ( op )
    {
        case c38::ADD: return in_range( a + b ); case c38::SUB: return in_range( a - b ); case c38::MUL: return in_range( ( a * b ) >> f.frac ); case c38::DIV: return b != 0 && in_range( ( a << f.frac ) / b ); case c38::NEG: return in_range( -a );
        case c38::FROM8: case c38::FROM16: case c38::FROM32: return in_range( a * ( wide( 1 ) << f.frac ) );
        case c38::CHAIN: { if ( c == 0 ) return false; wide s = a + b; if ( !in_range( s ) ) return false; s = ( s * c ) >> f.frac; if ( !in_range( s ) ) return false; s -= b; if ( !in_range( s ) ) return false; return in_range( ( s * ( wide( 1 ) << f.frac ) ) / c ); }
        case c38::MIXI: return f.bits - 1 - f.frac >= 1; case c38::MIXD: return f.frac >= 2 && f.bits - 1 - f.frac >= 0;
    }
    return true;
}
GROUP( scalars, 200, 2000 )
{
    Fmt const & f = FMTS[ vm::st().idx % 10 ]; int op = int( vm::st().idx / 10 % c38::NSCALAR ); int reps = vm::st().thorough ? 1500 : 400, done = 0;
    for ( int k = 0; k < reps; ++k )
    {
        int32_t in[3] = { raw( f, g ), raw( f, g ), raw( f, g ) }, host[5] = {}, dev[5];
        if ( op == c38::FROM8 ) in[0] = int8_t( g.next() >> ( g.next() % 8 ) ); if ( op == c38::FROM16 ) in[0] = int16_t( int16_t( g.next() ) >> ( g.next() % 16 ) ); if ( op == c38::FROM32 ) in[0] = int32_t( g.next() ) >> ( g.next() % 32 );
        if ( op == c38::FROMF || op == c38::FROMD ) { double top = std::ldexp( 1., f.bits - 1 - f.frac ), v; switch ( g.next() % 3 ) { case 0: v = g.sgn() * g.uni( 0, .999 ) * top; break; case 1: v = std::ldexp( double( raw( f, g ) / 2 ) + g.pick( { 0., .5, .25, -.5, .4999, .75 } ), -f.frac ); break; default: v = g.sgn() * std::ldexp( g.uni( 1, 2 ), g.i( -f.frac - 3, f.bits - f.frac - 3 ) ); } in[0] = bits( float( v ) ); double q = std::ldexp( double( fl( in[0] ) ), f.frac ); if ( std::fabs( q ) > std::ldexp( 1., f.bits - 1 ) - 2 ) continue; }
        if ( !domain( f, op, in ) ) continue; ++done;
        f.host( uint8_t( op ), in, host ); if ( !device( 0, f.f, uint8_t( op ), in, 3, dev, 5 ) ) return; bool same = true;
        if ( op == c38::ASF || op == c38::ASD ) { double h = fl( host[0] ), d = fl( dev[0] ); same = std::fabs( h - d ) <= std::ldexp( std::fabs( h ), -23 ); } else same = memcmp( host, dev, sizeof host ) == 0;
        if ( !same ) vm::fail( vm::fmt( "scalar:%s:%s", OPN[op], f.f ), "%s %s on %d, %d, %d: device gives %d %d %d %d, desktop %d %d %d %d", f.f, OPN[op], in[0], in[1], in[2], dev[0], dev[1], dev[2], dev[3], host[0], host[1], host[2], host[3] );
        vm::distinct( vm::mix( vm::mix( uint64_t( op ), vm::strhash( f.f ) ), uint64_t( uint32_t( in[0] ) ) << 32 | uint32_t( in[1] ^ in[2] * 77 ) ) );
    }
    vm::counter( std::string( "scalar " ) + OPN[op], uint64_t( done ) );
}
// --- matrices
struct MFmt { const char * f; int fw; char kind; void (*host)( uint8_t, int32_t const *, int32_t * ); };
template< class T, bool I > void hm( uint8_t op, int32_t const * in, int32_t * out ) { c38::matrices<T, I>( op, in, out ); }
using fp16 = num::fixed_point<int16_t, 7>; using fp32 = num::fixed_point<int32_t, 15>; using fp11 = num::fixed_point<int32_t, 11>;
static const MFmt MF[] = { { "m_i16", 1, 'i', hm<int16_t, false> }, { "m_i32", 1, 'l', hm<int32_t, false> }, { "m_flt", 2, 'f', hm<float, true> }, { "m_dbl", 2, 'd', hm<float, true> }, { "m_fp16", 3, 'h', hm<fp16, true> }, { "m_fp32", 3, 'x', hm<fp32, true> } };
static const char * const MN[] = { "A+B", "A-B", "A*B", "scalar", "transposed", "inverted", "row*A", "A*col", "row*col", "col*row", "list", "eye", "chain" };
GROUP( matrices, 78, 780 )
{
    MFmt const & f = MF[ vm::st().idx % 6 ]; int op = int( vm::st().idx / 6 % c38::NMATRIX ); if ( op == c38::MINV && ( f.kind == 'i' || f.kind == 'l' ) ) return; int reps = vm::st().thorough ? 400 : 80;
    for ( int k = 0; k < reps; ++k )
    {
        int32_t in[24], host[24] = {}, dev[24]; double v[24];
        for ( int i = 0; i < 24; ++i )
        {
            double x = f.kind == 'i' ? g.i( -90, 90 ) : f.kind == 'l' ? g.i( -20000, 20000 ) : f.kind == 'h' ? g.uni( -4.5, 4.5 ) : f.kind == 'x' ? g.uni( -60, 60 ) : g.sgn() * g.logu( .01, 50 );
            if ( op == c38::MCHAIN && f.kind == 'i' ) x = g.i( -20, 20 ); if ( op == c38::MCHAIN && f.kind == 'l' ) x = g.i( -500, 500 ); if ( op == c38::MCHAIN && ( f.kind == 'h' || f.kind == 'x' ) ) x = g.uni( -2.5, 2.5 );
            if ( op == c38::MINV ) { if ( i == 0 || i == 3 ) x = g.sgn() * g.uni( .7, 2 ); else x = g.uni( -.4, .4 ); }
            if ( f.kind == 'h' ) in[i] = int32_t( std::lround( x * 256 ) ); else if ( f.kind == 'x' ) in[i] = int32_t( std::lround( x * 65536 ) ); else if ( f.kind == 'f' || f.kind == 'd' ) in[i] = bits( float( x ) ); else in[i] = int32_t( x ); v[i] = x;
        }
        f.host( uint8_t( op ), in, host ); if ( !device( f.fw, f.f, uint8_t( op ), in, 24, dev, 24 ) ) return; (void) v;
        if ( f.kind == 'f' || f.kind == 'd' )
        {
            int32_t pert[24] = {}; double big = 0, err = 0; for ( int i = 0; i < 24; ++i ) if ( std::isfinite( fl( host[i] ) ) && !( op == c38::MLIST && i == 13 ) ) big = std::max( big, double( std::fabs( fl( host[i] ) ) ) );
            for ( int t = 0; t < 4; ++t ) { int32_t p[24]; for ( int i = 0; i < 24; ++i ) p[i] = fl( in[i] ) == 0 ? in[i] : in[i] + g.i( -1, 1 ); f.host( uint8_t( op ), p, pert ); for ( int i = 0; i < 24; ++i ) if ( !( op == c38::MLIST && i == 13 ) ) err = std::max( err, double( std::fabs( fl( pert[i] ) - fl( host[i] ) ) ) ); }
            double tol = 8 * err + 16 * std::ldexp( big + 1e-3, -24 ); for ( int i = 0; i < 24; ++i ) { if ( op == c38::MLIST && i == 13 ) { if ( dev[i] != host[i] ) vm::fail( vm::fmt( "matrix:%s:%s", MN[op], f.f ), "shape %d instead of %d", dev[i], host[i] ); continue; } double d = std::fabs( double( fl( dev[i] ) ) - double( fl( host[i] ) ) ); if ( !( d <= tol ) ) vm::fail( vm::fmt( "matrix:%s:%s", MN[op], f.f ), "%s %s, element %d: device gives %.9g, desktop %.9g (tolerance %.3g)", f.f, MN[op], i, fl( dev[i] ), fl( host[i] ), tol ); else worst( "matrix-deviation/tolerance", d / tol ); }
        }
        else for ( int i = 0; i < 24; ++i ) if ( dev[i] != host[i] ) { vm::fail( vm::fmt( "matrix:%s:%s", MN[op], f.f ), "%s %s, element %d: device gives %d, desktop %d", f.f, MN[op], i, dev[i], host[i] ); break; }
        uint64_t h = vm::mix( uint64_t( op ), vm::strhash( f.f ) ); for ( int i = 0; i < 24; ++i ) h = vm::mix( h, uint32_t( in[i] ) ); vm::distinct( h );
    }
    vm::counter( std::string( "matrix " ) + MN[op], uint64_t( reps ) );
}
// --- Kalman
struct KFmt { const char * f; int fw, M, U, frac; void (*host)( uint8_t, int32_t const *, int32_t * ); void (*ref)( uint8_t, int32_t const *, int32_t * ); };
template< class T, int M, int U > void hk( uint8_t n, int32_t const * in, int32_t * out ) { c38::kalman<T, M, U>( n, in, out ); }
static const KFmt KF[] = { { "k_flt_11", 4, 1, 1, 0, hk<float, 1, 1>, hk<double, 1, 1> }, { "k_fp32_11", 4, 1, 1, 16, hk<fp32, 1, 1>, nullptr }, { "k_dbl_12", 4, 1, 2, 0, hk<float, 1, 2>, hk<double, 1, 2> }, { "k_fp11_21", 5, 2, 1, 20, hk<fp11, 2, 1>, nullptr }, { "k_flt_21", 5, 2, 1, 0, hk<float, 2, 1>, hk<double, 2, 1> } };
GROUP( kalman, 100, 4000 )
{
    KFmt const & f = KF[ vm::st().idx % 5 ]; int32_t in[160], host[16] = {}, dev[16]; std::vector<double> v; double dt = g.uni( .05, 1 );
    int M = f.M, U = f.U, head = 1 + 4 + 2 * U + 2 * M + 4 + M * M + 4 + 2, n = std::min( ( 160 - head ) / ( U + M ), int( g.i( 1, 40 ) ) ); if ( f.frac ) n = std::min( n, 20 );
    auto add = [&]( std::initializer_list<double> l ) { for ( double x : l ) v.push_back( x ); };
    add( { dt, 1, dt, g.uni( -.1, .1 ), g.uni( .6, 1 ) } ); for ( int i = 0; i < 2 * U; ++i ) add( { g.uni( 0, dt ) } ); if ( M == 1 ) add( { 1, g.uni( 0, .4 ) } ); else add( { 1, g.uni( 0, .3 ), g.uni( 0, .3 ), g.uni( .7, 1 ) } );
    double q1 = g.uni( .02, .2 ), q2 = g.uni( .02, .2 ), qc = g.uni( -.5, .5 ) * std::min( q1, q2 ); add( { q1, qc, qc, q2 } ); double r1 = g.uni( .3, 2 ); if ( M == 1 ) add( { r1 } ); else add( { r1, 0, 0, g.uni( .3, 2 ) } ); double p1 = g.uni( .1, 1 ), p2 = g.uni( .1, 1 ), pc = g.uni( -.5, .5 ) * std::min( p1, p2 ); add( { p1, pc, pc, p2 } ); add( { g.uni( -2, 2 ), g.uni( -1, 1 ) } );
    double x = g.uni( -2, 2 ), vel = g.uni( -1, 1 ); for ( int k = 0; k < n; ++k ) { double a = g.uni( -1, 1 ); x += vel * dt; vel = vel * .9 + a * dt; for ( int i = 0; i < U; ++i ) add( { g.uni( -1, 1 ) } ); for ( int i = 0; i < M; ++i ) add( { ( i ? vel : x ) + g.uni( -1, 1 ) } ); }
    auto code = [&]( double d ) { return f.frac ? int32_t( std::lround( std::ldexp( d, f.frac ) ) ) : bits( float( d ) ); }; for ( size_t i = 0; i < v.size(); ++i ) in[i] = code( v[i] );
    f.host( uint8_t( n ), in, host ); if ( !device( f.fw, f.f, uint8_t( n ), in, int( v.size() ), dev, 16 ) ) return; uint64_t h = vm::strhash( f.f ); for ( size_t i = 0; i < v.size(); ++i ) h = vm::mix( h, uint32_t( in[i] ) ); vm::distinct( h ); vm::counter( "kalman-updates", uint64_t( n ) );
    if ( vm::st().idx < 5 ) vm::sample( "%s, %d updates: state %08x %08x on the device, %08x %08x on the desktop", f.f, n, dev[0], dev[1], host[0], host[1] );
    if ( f.frac ) { for ( int i = 0; i < 11; ++i ) if ( dev[i] != host[i] ) { vm::fail( vm::fmt( "kalman:%s", f.f ), "%s after %d updates, result %d: device gives %d, desktop %d", f.f, n, i, dev[i], host[i] ); break; } return; }
    int32_t o[16]; double err[11], big = 0; f.ref( uint8_t( n ), in, o ); for ( int i = 0; i < 11; ++i ) { err[i] = std::fabs( double( fl( o[i] ) ) - double( fl( host[i] ) ) ); if ( i < 10 ) big = std::max( big, double( std::fabs( fl( host[i] ) ) ) ); }
    for ( int t = 0; t < 6; ++t ) { int32_t p[160]; for ( size_t i = 0; i < v.size(); ++i ) p[i] = fl( in[i] ) == 0 ? in[i] : in[i] + g.i( -1, 1 ); f.host( uint8_t( n ), p, o ); for ( int i = 0; i < 11; ++i ) err[i] = std::max( err[i], std::fabs( double( fl( o[i] ) ) - double( fl( host[i] ) ) ) ); }
    for ( int i = 0; i < 11; ++i ) { double tol = 10 * err[i] + 64 * std::ldexp( ( i < 10 ? big : std::fabs( double( fl( host[i] ) ) ) ) + 1e-3, -24 ), d = std::fabs( double( fl( dev[i] ) ) - double( fl( host[i] ) ) ); if ( !( d <= tol ) ) vm::fail( vm::fmt( "kalman:%s", f.f ), "%s after %d updates, result %d: device gives %.9g, desktop %.9g (tolerance %.3g)", f.f, n, i, fl( dev[i] ), fl( host[i] ), tol ); else worst( "kalman-deviation/tolerance", d / tol ); }
}
VMON_MAIN
