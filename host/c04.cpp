// C04: construction, observers, copies and interleaving. Every filter is shadowed by its construction
// arguments and its history; the oracle is a pristine filter that replays that history alone.
#include "kal.hpp"
#include <limits>
#include <memory>
#include <new>
#include <sys/wait.h>
#include <unistd.h>

template< class F > bool same( F const & a, F const & b )
{
    auto eq = []( auto const & p, auto const & q ) { for ( int i = 0; i < p.rows(); ++i ) for ( int j = 0; j < p.columns(); ++j ) if ( !( p( i, j ) == q( i, j ) ) && p( i, j ) == p( i, j ) ) return false; return true; };
    return eq( a.system_state(), b.system_state() ) && eq( a.kalman_gain(), b.kalman_gain() ) && eq( a.estimation_error_covariance(), b.estimation_error_covariance() ) && a.time() == b.time();
}
template< class F > std::string state( F const & f )
{
    return "x=" + show( f.system_state() ) + " K=" + show( f.kalman_gain() ) + " P=" + show( f.estimation_error_covariance() ) + vm::fmt( " t=%.9g", todbl( f.time() ) );
}

// memory for one filter filled with a chosen byte, fenced by heap allocation bounds
template< class F > struct Box
{
    unsigned char * mem; F * f;
    template< class... A > Box( int fill, A &&... a ) : mem( new unsigned char[ sizeof( F ) ] ) { memset( mem, fill, sizeof( F ) ); asm volatile( "" : "+r"( mem ) : : "memory" ); f = new( mem ) F( a... ); }
    Box( Box && o ) : mem( o.mem ), f( o.f ) { o.mem = nullptr; o.f = nullptr; }
    Box( Box const & ) = delete;
    ~Box() { if ( f ) f->~F(); delete[] mem; }
};

template< class Mo > auto build( Mo const & m, int fill )
{
    using F = typename Mo::F;
    // arguments live on the heap and are overwritten and freed right after construction
    auto a = std::make_unique<Mo>( m );
    Box<F> b( fill, a->dt, a->A, a->B, a->H, a->Q, a->R, a->P, a->x );
    using T = typename F::real_t;
    for ( auto p : { &a->A( 0, 0 ), &a->A( 1, 1 ), &a->B( 0, 0 ), &a->H( 0, 0 ), &a->Q( 0, 0 ), &a->R( 0, 0 ), &a->P( 0, 0 ), &a->x( 0 ), &a->dt } ) *p = T( 77 );
    return b;
}

template< class T, int M, int U >
void fresh( vm::Rng & g )
{
    using F = num::kalman<T, 2, M, U>;
    auto m = randmodel<T, M, U>( g, g.p( .6 ) );
    for ( int fill : { 0x00, 0xFF, 0x41, 0xBF, 0x7F } )
    {
        auto b = build( m, fill ); F const & f = *b.f; vm::event();
        for ( int rep = 0; rep < 2; ++rep )
        {
            auto x = f.system_state(); auto P = f.estimation_error_covariance(); auto K = f.kalman_gain();
            for ( int i = 0; i < 2; ++i )
            {
                if ( !( x( i ) == m.x( i ) ) ) vm::fail( "initial-state", "state=%s given %s (memory filled with %02x)", show( x ).c_str(), show( m.x ).c_str(), fill );
                for ( int j = 0; j < 2; ++j ) if ( !( P( i, j ) == m.P( i, j ) ) ) vm::fail( "initial-covariance", "P=%s given %s (memory filled with %02x)", show( P ).c_str(), show( m.P ).c_str(), fill );
                for ( int j = 0; j < M; ++j ) if ( !( K( i, j ) == T( 0 ) ) ) vm::fail( "initial-gain", "K=%s before the first update (memory filled with %02x)", show( K ).c_str(), fill );
            }
            if ( !( f.time() == T( 0 ) ) ) vm::fail( "initial-time", "time=%.9g before the first update (memory filled with %02x)", todbl( f.time() ), fill );
        }
        int n = int( g.p( .03 ) ? g.i( 200, 2500 ) : g.i( 0, 30 ) );
        for ( int k = 1; k <= n; ++k )
        {
            b.f->update( randu<F>( g, 2 ), randz<F>( g, 5 ) );
            double want = k * todbl( m.dt ), tol = std::fabs( want ) * ( sizeof( T ) == 4 ? 1e-6 : 1e-14 ) * k;
            if ( !vm::close( todbl( f.time() ), want, tol ) ) vm::fail( "time", "time=%.9g after %d updates of %.9g", todbl( f.time() ), k, todbl( m.dt ) );
            vm::counter( "times_checked" );
        }
    }
    vm::distinct( hashmodel( m ) );
    vm::sample( "%s", showmodel( m ).c_str() );
}

// a filter that has been running for very long: the clock keeps counting, the history stays its own
template< class T > void marathon( vm::Rng & g )
{
    using F = num::kalman<T, 2, 1, 1>; auto m = randmodel<T, 1, 1>( g, true ); m.dt = T( g.p( .5 ) ? .25 : g.uni( .001, .02 ) ); if ( g.p( .15 ) ) m.dt = -m.dt;
    auto b = build( m, 0xCC ); long n = vm::st().thorough ? 400000 : g.i( 66000, 140000 ), ck = 1; double dt = todbl( m.dt );
    std::unique_ptr<F> copy; long at = g.i( 1, n - 20 );
    for ( long k = 1; k <= n; ++k )
    {
        auto u = randu<F>( g, 1 ); auto z = randz<F>( g, 2 ); b.f->update( u, z ); if ( copy ) copy->update( u, z );
        if ( k == at ) copy = std::make_unique<F>( *b.f );
        if ( k == ck || k > n - 3 || ( k & ( k - 1 ) ) == 0 || ( ( k - 1 ) & ( k - 2 ) ) == 0 )
        {
            vm::event(); double want = double( k ) * dt, tol = std::fabs( want ) * std::numeric_limits<T>::epsilon() * double( k ); if ( std::fabs( dt ) == .25 ) tol = 0;
            if ( !vm::close( todbl( b.f->time() ), want, tol ) ) { vm::fail( "time", "time=%.9g after %ld updates of %.9g", todbl( b.f->time() ), k, dt ); return; }
            ck = k + g.i( 1, 900 ); vm::counter( "times_checked" );
        }
    }
    if ( copy && !same( *copy, *b.f ) ) vm::fail( "history-not-own", "a copy taken after %ld updates and driven alike differs after %ld: %s and %s", at, n, state( *copy ).c_str(), state( *b.f ).c_str() );
    vm::distinct( hashmodel( m ) ); vm::counter( "long_run_updates", uint64_t( n ) );
}
// The pristine oracle: a process forked before any filter existed forks another one per request, which builds
// a single filter, replays one history and sends its state back. Nothing that filters of this process share
// (statics, caches) can reach it.
namespace pristine {
bool all( int fd, void * p, size_t n, bool rd ) { auto c = static_cast<char *>( p ); while ( n ) { ssize_t k = rd ? read( fd, c, n ) : write( fd, c, n ); if ( k <= 0 ) return false; c += k; n -= size_t( k ); } return true; }
template< class T, class X > void put( std::vector<T> & v, X const & x ) { for ( int i = 0; i < x.rows(); ++i ) for ( int j = 0; j < x.columns(); ++j ) v.push_back( x( i, j ) ); }
template< class T, class X > void get( T const *& p, X & x ) { for ( int i = 0; i < x.rows(); ++i ) for ( int j = 0; j < x.columns(); ++j ) x( i, j ) = *p++; }
template< class F, class T > void state( std::vector<T> & v, F const & f ) { put( v, f.system_state() ); put( v, f.kalman_gain() ); put( v, f.estimation_error_covariance() ); v.push_back( f.time() ); }
template< class T, int M, int U > constexpr int tag() { return int( sizeof( T ) ) * 100 + M * 10 + U; }
template< class T, int M, int U > void replay( std::vector<char> const & raw, int out )
{
    using F = num::kalman<T, 2, M, U>; std::vector<T> v( raw.size() / sizeof( T ) ); memcpy( v.data(), raw.data(), v.size() * sizeof( T ) ); T const * p = v.data(), * e = p + v.size();
    T dt = *p++; typename F::A_t A; typename F::B_t B; typename F::H_t H; typename F::Q_t Q; typename F::R_t R; typename F::P_t P; typename F::xhat_t x;
    get( p, A ); get( p, B ); get( p, H ); get( p, Q ); get( p, R ); get( p, P ); get( p, x );
    F f( dt, A, B, H, Q, R, P, x );
    while ( p < e ) { typename F::u_t u; typename F::z_t z; get( p, u ); get( p, z ); f.update( u, z ); }
    std::vector<T> r; state( r, f ); all( out, r.data(), r.size() * sizeof( T ), false );
}
struct Server
{
    int to[2], from[2];
    Server()
    {
        if ( pipe( to ) || pipe( from ) ) abort();
        pid_t p = fork(); if ( p < 0 ) abort();
        if ( p ) { close( to[0] ); close( from[1] ); return; }
        close( to[1] ); close( from[0] );
        for ( ;; )
        {
            int h[2]; if ( !all( to[0], h, sizeof h, true ) ) _exit( 0 );
            std::vector<char> raw( static_cast<size_t>( h[1] ) ); if ( !all( to[0], raw.data(), raw.size(), true ) ) _exit( 0 );
            pid_t c = fork(); if ( c < 0 ) _exit( 1 );
            if ( c == 0 )
            {
                switch ( h[0] ) { case tag<double, 1, 1>(): replay<double, 1, 1>( raw, from[1] ); break; case tag<double, 2, 2>(): replay<double, 2, 2>( raw, from[1] ); break; case tag<float, 2, 1>(): replay<float, 2, 1>( raw, from[1] ); break; case tag<float, 1, 2>(): replay<float, 1, 2>( raw, from[1] ); break; case tag<double, 1, 3>(): replay<double, 1, 3>( raw, from[1] ); break; }
                _exit( 0 );
            }
            int st = 1; waitpid( c, &st, 0 ); if ( st != 0 ) _exit( 1 );
        }
    }
} server;
template< class T, int M, int U, class Mo, class H > std::vector<T> run( Mo const & m, H const & hist, size_t n )
{
    std::vector<T> v; v.push_back( m.dt ); put( v, m.A ); put( v, m.B ); put( v, m.H ); put( v, m.Q ); put( v, m.R ); put( v, m.P ); put( v, m.x ); for ( auto & e : hist ) { put( v, e.u ); put( v, e.z ); }
    int h[2] = { tag<T, M, U>(), int( v.size() * sizeof( T ) ) }; std::vector<T> r( n );
    if ( !all( server.to[1], h, sizeof h, false ) || !all( server.to[1], v.data(), v.size() * sizeof( T ), false ) || !all( server.from[0], r.data(), r.size() * sizeof( T ), true ) ) { fprintf( stderr, "the pristine process is gone\n" ); exit( 3 ); }
    return r;
}
}
template< class T, int M, int U >
void interleave( vm::Rng & g )
{
    using Mo = Model<T, M, U>; using F = typename Mo::F;
    struct Ev { typename F::u_t u; typename F::z_t z; };
    struct Shadow { Mo m; std::vector<Ev> h; };
    std::vector<Box<F>> fs; std::vector<Shadow> sh;
    auto check = [&]( size_t i, char const * when )
    {
        // replay alone in memory with other contents
        Box<F> r( 0x5A, sh[i].m.dt, sh[i].m.A, sh[i].m.B, sh[i].m.H, sh[i].m.Q, sh[i].m.R, sh[i].m.P, sh[i].m.x );
        for ( auto & e : sh[i].h ) r.f->update( e.u, e.z );
        vm::counter( "replays" );
        if ( !same( *fs[i].f, *r.f ) )
            vm::fail( "history-not-own", "%s: filter %zu of %zu after %zu updates shows %s, replayed alone %s; %s", when, i, fs.size(), sh[i].h.size(), state( *fs[i].f ).c_str(), state( *r.f ).c_str(), showmodel( sh[i].m ).c_str() );
    };
    int ops = int( g.i( 5, 60 ) ); std::string trace; uint64_t h = 0;
    for ( int o = 0; o < ops; ++o )
    {
        int op = fs.empty() ? 0 : int( g.i( 0, 9 ) );
        h = vm::mix( h, op );
        if ( op == 0 && fs.size() < 6 )
        {
            auto m = randmodel<T, M, U>( g, g.p( .6 ) );
            if ( !sh.empty() && g.p( .5 ) ) { m = sh[ g.next() % sh.size() ].m; if ( g.p( .5 ) ) m.x( 0 ) = T( g.uni( -5, 5 ) ); }
            fs.push_back( build( m, int( g.i( 0, 255 ) ) ) ); sh.push_back( { m, {} } ); trace += "new;";
        }
        else if ( op == 1 && fs.size() < 6 && !fs.empty() )
        {
            size_t i = g.next() % fs.size();
            fs.push_back( Box<F>( int( g.i( 0, 255 ) ), *const_cast<F const *>( fs[i].f ) ) ); sh.push_back( sh[i] ); trace += vm::fmt( "copy%zu;", i );
            check( fs.size() - 1, "copy" );
        }
        else if ( op == 2 && fs.size() > 1 )
        {
            size_t i = g.next() % fs.size();
            std::swap( fs[i].mem, fs.back().mem ); std::swap( fs[i].f, fs.back().f ); std::swap( sh[i], sh.back() );
            memset( (void *)fs.back().f, 0x99, 0 ); fs.pop_back(); sh.pop_back(); trace += "destroy;";
        }
        else if ( op <= 6 )
        {
            size_t i = g.next() % fs.size(); int n = int( g.i( 1, 3 ) );
            for ( int k = 0; k < n; ++k )
            {
                Ev e = { randu<F>( g, 2 ), randz<F>( g, 5 ) };
                auto u = e.u; auto z = e.z;
                fs[i].f->update( u, z ); sh[i].h.push_back( e ); vm::event();
                for ( int j = 0; j < U; ++j ) if ( !( u( j ) == e.u( j ) ) ) vm::fail( "arguments-changed", "update changed its control argument" );
                for ( int j = 0; j < M; ++j ) if ( !( z( j ) == e.z( j ) ) ) vm::fail( "arguments-changed", "update changed its measurement argument" );
            }
            trace += vm::fmt( "upd%zux%d;", i, n );
        }
        else if ( op <= 8 )
        {   // observe one filter repeatedly, in some order, scribbling on what is returned
            size_t i = g.next() % fs.size(); F const & f = *fs[i].f;
            auto x0 = f.system_state(); auto P0 = f.estimation_error_covariance(); auto K0 = f.kalman_gain(); auto t0 = f.time();
            for ( int k = 0; k < 6; ++k ) switch ( g.i( 0, 3 ) )
            {
                case 0: { auto v = f.system_state(); v( 0 ) = T( 9 ); v( 1 ) = T( 9 ); } break;
                case 1: { auto v = f.estimation_error_covariance(); v( 0, 0 ) = T( 9 ); v( 1, 0 ) = T( 9 ); } break;
                case 2: { auto v = f.kalman_gain(); v( 0, 0 ) = T( 9 ); v( 1, 0 ) = T( 9 ); } break;
                default: { auto v = f.time(); v = T( 9 ); (void)v; }
            }
            (void)x0; (void)P0; (void)K0; (void)t0;
            trace += vm::fmt( "obs%zu;", i );
            check( i, "after observing" );
        }
        else { size_t i = g.next() % fs.size(); check( i, "at a random point" ); }
    }
    for ( size_t i = 0; i < fs.size(); ++i ) check( i, "at the end" );
    for ( size_t i = 0; i < fs.size(); ++i ) if ( g.p( vm::st().thorough ? .1 : .3 ) )
    {
        std::vector<T> mine; pristine::state( mine, *fs[i].f ); auto alone = pristine::run<T, M, U>( sh[i].m, sh[i].h, mine.size() ); vm::counter( "replays_in_a_pristine_process" );
        for ( size_t k = 0; k < mine.size(); ++k ) if ( !( mine[k] == alone[k] ) && !( mine[k] != mine[k] && alone[k] != alone[k] ) ) { vm::fail( "not-independent", "filter %zu of %zu after %zu updates shows %s; in a process of its own, component %zu is %.17g instead of %.17g; %s", i, fs.size(), sh[i].h.size(), state( *fs[i].f ).c_str(), k, todbl( alone[k] ), todbl( mine[k] ), showmodel( sh[i].m ).c_str() ); break; }
    }
    vm::distinct( h );
    vm::sample( "%s", trace.c_str() );
}
using fx = num::fixed_point<int32_t, 16, 15>;
GROUP( fresh_d11, 400, 8000 ) { fresh<double, 1, 1>( g ); }
GROUP( fresh_d21, 400, 8000 ) { fresh<double, 2, 1>( g ); }
GROUP( fresh_d12, 400, 8000 ) { fresh<double, 1, 2>( g ); }
GROUP( fresh_f22, 400, 8000 ) { fresh<float, 2, 2>( g ); }
GROUP( marathons, 6, 20 ) { marathon<double>( g ); marathon<float>( g ); }
GROUP( inter_d11, 800, 20000 ) { interleave<double, 1, 1>( g ); }
GROUP( inter_d22, 800, 20000 ) { interleave<double, 2, 2>( g ); }
GROUP( inter_f21, 800, 20000 ) { interleave<float, 2, 1>( g ); }
GROUP( inter_f12, 800, 20000 ) { interleave<float, 1, 2>( g ); }
GROUP( fresh_d13, 400, 8000 ) { fresh<double, 1, 3>( g ); fresh<float, 2, 4>( g ); }
GROUP( inter_d13, 500, 10000 ) { interleave<double, 1, 3>( g ); }
VMON_MAIN
