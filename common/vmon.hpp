// Runtime-monitoring support for the host harnesses: seeded case generation, verdict
// recording, coverage counting. A harness is a set of GROUPs, each a function run for a number of
// independently seeded cases; any case can be re-run alone with --only group:index.
#ifndef VMON_HPP
#define VMON_HPP
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vm {

struct Rng
{
    uint64_t s;
    explicit Rng( uint64_t seed ) : s( seed * 0x9E3779B97F4A7C15ull + 0x1234567 ) { next(); next(); }
    uint64_t next()
    {
        uint64_t z = ( s += 0x9E3779B97F4A7C15ull );
        z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull;
        z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull;
        return z ^ ( z >> 31 );
    }
    double u() { return double( next() >> 11 ) * ( 1.0 / 9007199254740992.0 ); }        // [0,1)
    double uni( double lo, double hi ) { return lo + ( hi - lo ) * u(); }
    double logu( double lo, double hi ) { return std::exp( uni( std::log( lo ), std::log( hi ) ) ); }
    long   i( long lo, long hi ) { return lo + long( next() % uint64_t( hi - lo + 1 ) ); } // [lo,hi]
    bool   p( double pr ) { return u() < pr; }
    double sgn() { return next() & 1 ? 1.0 : -1.0; }
    double n()
    {
        double a = 0; for ( int k = 0; k < 12; ++k ) a += u();
        return a - 6;
    }
    template< class T, size_t N > T pick( T const (&a)[N] ) { return a[ next() % N ]; }
};

typedef void (*CaseFn)( Rng & );

struct Group { const char * name; CaseFn fn; long quick, thorough; };

struct State
{
    std::vector<Group> groups;
    FILE * out = nullptr;
    char * now = nullptr;
    uint64_t evals = 0, events = 0;
    std::unordered_set<uint64_t> seen;
    std::map<std::string, int> failcount;
    std::map<std::string, uint64_t> counters;
    int samples = 0;
    std::string group; long idx = 0;
    uint64_t seed = 1; bool thorough = false; double scale = 1;
    std::set<std::string> sampled; std::vector<std::string> elf;
};
inline State & st() { static State s; return s; }

struct Reg { Reg( const char * n, CaseFn f, long q, long t ) { st().groups.push_back( { n, f, q, t } ); } };

inline std::string clean( std::string s )
{
    for ( auto & c : s ) if ( c == '\n' || c == '\t' || c == '\r' ) c = ' ';
    return s;
}

inline std::string vfmt( const char * f, va_list ap )
{
    char buf[4096];
    vsnprintf( buf, sizeof buf, f, ap );
    return buf;
}

__attribute__((format(printf,1,2)))
inline std::string fmt( const char * f, ... )
{
    va_list ap; va_start( ap, f ); auto s = vfmt( f, ap ); va_end( ap );
    return s;
}

// Record a violation; key identifies the kind of failure (used for known-findings matching).
__attribute__((format(printf,2,3)))
inline void fail( std::string const & key, const char * f, ... )
{
    auto & S = st();
    int & n = S.failcount[ key ];
    if ( n++ >= 3 || S.failcount.size() > 60 ) return;
    va_list ap; va_start( ap, f ); auto s = vfmt( f, ap ); va_end( ap );
    fprintf( S.out, "FAIL\t%s\t%s:%ld\t%s\n", clean( key ).c_str(), S.group.c_str(), S.idx, clean( s ).c_str() );
    fflush( S.out );
}

inline void event( uint64_t n = 1 ) { st().events += n; }
inline void eval( uint64_t n = 1 ) { st().evals += n; }
inline void counter( std::string const & k, uint64_t n = 1 ) { st().counters[ k ] += n; }

inline uint64_t mix( uint64_t h, uint64_t v ) { return ( h ^ v ) * 0x100000001B3ull + ( h >> 29 ); }
inline uint64_t hashd( uint64_t h, double d ) { uint64_t v; memcpy( &v, &d, 8 ); return mix( h, v ); }

// Count a non-trivial case by its hash.
inline void distinct( uint64_t h )
{
    auto & S = st();
    if ( S.seen.size() < 4000000 ) S.seen.insert( h );
}

__attribute__((format(printf,1,2)))
inline void sample( const char * f, ... )
{
    auto & S = st();
    if ( S.samples >= 12 || S.sampled.count( S.group ) ) return;
    S.sampled.insert( S.group ); ++S.samples;
    va_list ap; va_start( ap, f ); auto s = vfmt( f, ap ); va_end( ap );
    fprintf( S.out, "SAMPLE\t%s:%ld %s\n", S.group.c_str(), S.idx, clean( s ).c_str() );
}

// a equals b to within tol (absolute); NaN never equals, equal infinities do.
inline bool close( long double a, long double b, long double tol )
{
    if ( a == b ) return true;
    if ( std::isnan( a ) || std::isnan( b ) ) return false;
    return std::fabs( a - b ) <= tol;
}

inline uint64_t strhash( const char * s ) { uint64_t h = 0xcbf29ce484222325ull; for ( ; *s; ++s ) h = mix( h, (unsigned char)*s ); return h; }

inline int main_( int argc, char ** argv )
{
    auto & S = st();
    std::string outp = "/dev/stdout", nowp, only, hashes; long shard = 0, shards = 1;
    for ( int i = 1; i + 1 < argc; i += 2 )
    {
        std::string a = argv[i], v = argv[i + 1];
        if      ( a == "--seed"  ) S.seed = strtoull( v.c_str(), 0, 10 );
        else if ( a == "--tier"  ) S.thorough = v == "thorough";
        else if ( a == "--out"   ) outp = v;
        else if ( a == "--now"   ) nowp = v;
        else if ( a == "--scale" ) S.scale = atof( v.c_str() );
        else if ( a == "--only"  ) only = v;
        else if ( a == "--shard" ) sscanf( v.c_str(), "%ld/%ld", &shard, &shards );
        else if ( a == "--hashes") hashes = v;
        else if ( a == "--elf"   ) S.elf.push_back( v );
    }
    S.out = fopen( outp.c_str(), "w" );
    if ( !S.out ) return 3;
    static char dummy[256];
    S.now = dummy;
    if ( !nowp.empty() )
    {
        int fd = open( nowp.c_str(), O_RDWR | O_CREAT, 0644 );
        if ( fd < 0 || ftruncate( fd, 256 ) ) return 3;
        void * p = mmap( 0, 256, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0 );
        if ( p == MAP_FAILED ) return 3;
        S.now = (char *)p;
    }
    for ( auto & g : S.groups )
    {
        long n = long( std::ceil( double( S.thorough ? g.thorough : g.quick ) * S.scale ) );
        if ( S.scale > 1 ) n = std::min( n, std::max( g.quick, g.thorough ) );   // a group that enumerates everything does so once
        long a = 0, b = n, ran = 0;
        if ( !only.empty() )
        {
            auto c = only.rfind( ':' );
            if ( only.substr( 0, c ) != g.name ) continue;
            a = atol( only.c_str() + c + 1 ); b = a + 1;
        }
        S.group = g.name;
        for ( long k = a; k < b; ++k )
        {
            if ( only.empty() && k % shards != shard ) continue;
            ++ran; S.idx = k;
            snprintf( S.now, 255, "%s:%ld", g.name, k );
            Rng r( strhash( g.name ) ^ ( S.seed * 0xD1342543DE82EF95ull ) ^ ( uint64_t( k ) * 0x2545F4914F6CDD1Dull ) );
            ++S.evals;
            g.fn( r );
        }
        fprintf( S.out, "GROUP\t%s\t%ld\n", g.name, ran );
    }
    fprintf( S.out, "STAT\tevals\t%llu\n", (unsigned long long)S.evals );
    fprintf( S.out, "STAT\tevents\t%llu\n", (unsigned long long)S.events );
    fprintf( S.out, "STAT\tdistinct\t%llu\n", (unsigned long long)S.seen.size() );
    for ( auto & c : S.counters ) fprintf( S.out, "COUNT\t%s\t%llu\n", c.first.c_str(), (unsigned long long)c.second );
    if ( !hashes.empty() ) if ( FILE * h = fopen( hashes.c_str(), "wb" ) ) { for ( uint64_t x : S.seen ) fwrite( &x, 8, 1, h ); fclose( h ); }
    fprintf( S.out, "DONE\n" );
    fclose( S.out );
    return 0;
}

} // namespace vm

#define GROUP( name, quick, thorough ) \
    static void name( vm::Rng & g ); \
    static vm::Reg vm_reg_##name( #name, name, quick, thorough ); \
    static void name( vm::Rng & g )

// a harness may be compiled in parts, in parallel: a group in #if IN_PART( k ) belongs to part k
#ifdef PART
# define IN_PART( k ) ( PART == ( k ) )
#else
# define IN_PART( k ) 1
#endif
#define VMON_MAIN int main( int argc, char ** argv ) { return vm::main_( argc, argv ); }

#endif
