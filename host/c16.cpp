// C16: a cascade is an exact bounded sequence of its sections.
#include "dsp.hpp"
#include "dsp/biquad-cascade.hpp"
#include <memory>
#include <new>
#include <signal.h>
#include <sys/wait.h>

#ifndef NDEBUG
// assert() reports through this; in a trap test the process ends with a recognisable status
static bool in_trap = false;
extern "C" void __assert_fail( const char * e, const char * f, unsigned l, const char * )
{
    if ( in_trap ) _exit( 42 );
    fprintf( stderr, "%s:%u: Assertion `%s' failed\n", f, l, e ); abort();
}
#endif

using Q = dsp::BiQuadT<double>;
static Q mkq( vm::Rng & g )
{
    Q q( Q::B{ g.uni( -2, 2 ), g.uni( -2, 2 ), g.uni( -2, 2 ) }, Q::A{ g.uni( -1, 1 ), g.uni( -1, 1 ) } );
    int n = int( g.i( 0, 3 ) ); for ( int i = 0; i < n; ++i ) q.step( g.uni( -1, 1 ) );
    return q;
}
static std::vector<double> dump( Q const & q ) { auto a = q.coeff_a(); auto b = q.coeff_b(); auto w = q.state(); return { b.b0, b.b1, b.b2, a.a1, a.a2, w.v1, w.v2 }; }
static std::string str( std::vector<double> const & v ) { std::string s = "["; for ( auto d : v ) s += vm::fmt( " %.4g", d ); return s + " ]"; }

template< int N > void compare( dsp::BiQuadCascadeT<double, N> & c, std::vector<Q> const & m, const char * what )
{
    auto const & k = c;
    if ( k.size() != int( m.size() ) ) { vm::fail( vm::fmt( "size-after-%s", what ), "capacity %d: size is %d after %s, a list would have %zu", N, int( k.size() ), what, m.size() ); return; }
    if ( k.reserved() != N || std::decay_t<decltype( k )>::reserved() != N ) vm::fail( "capacity", "capacity reported as %d instead of %d", int( k.reserved() ), N );
    if ( k.end() - k.begin() != long( m.size() ) || c.end() - c.begin() != long( m.size() ) ) vm::fail( "iteration-length", "capacity %d: iteration visits %ld sections of %zu after %s", N, long( k.end() - k.begin() ), m.size(), what );
    size_t i = 0; vm::event();
    for ( auto const & q : k )
    {
        if ( i >= m.size() ) break;
        auto d = dump( q ), e = dump( m[i] );
        if ( d != e ) { vm::fail( vm::fmt( "section-after-%s", what ), "capacity %d: section %zu is %s after %s, a list holds %s", N, i, str( d ).c_str(), what, str( e ).c_str() ); return; }
        auto a = k.coeff_a( int( i ) ); auto b = k.coeff_b( int( i ) ); auto w = k.state( int( i ) ); std::vector<double> f = { b.b0, b.b1, b.b2, a.a1, a.a2, w.v1, w.v2 };
        if ( f != e ) { vm::fail( "section-access", "capacity %d: coeff/state( %zu ) give %s, the section is %s", N, i, str( f ).c_str(), str( e ).c_str() ); return; }
        ++i;
    }
    i = 0; for ( auto & q : c ) { if ( i < m.size() && &q != c.begin() + i ) vm::fail( "iteration-order", "iteration does not visit the sections in order" ); ++i; }
    if ( i != m.size() ) vm::fail( "iteration-length", "iteration visits %zu sections of %zu", i, m.size() );
}
template< int N > struct Boxed      // a cascade alone in an exactly sized, poisoned block
{
    using C = dsp::BiQuadCascadeT<double, N>; unsigned char * m; C * c;
    template< class... A > Boxed( A const &... a )
    {
        m = (unsigned char *)::operator new( sizeof( C ) ); memset( m, 0xB7, sizeof( C ) ); asm volatile( "" : : "r"( m ) : "memory" ); c = new ( m ) C( a... );
    }
    Boxed( Boxed const & ) = delete;
    ~Boxed() { c->~C(); ::operator delete( m ); }
};
template< int N > void trace( vm::Rng & g )
{
    Boxed<N> box[2]; std::vector<Q> m[2]; uint64_t h = N; std::string names;
    for ( int b = 0; b < 2; ++b ) compare<N>( *box[b].c, m[b], "construction" );
    int ops = int( g.i( 5, 40 ) );
    for ( int o = 0; o < ops; ++o )
    {
        int b = int( g.i( 0, 1 ) ); auto & c = *box[b].c; auto & l = m[b]; int n = int( l.size() ), k = int( g.i( 0, 9 ) ); const char * what = nullptr; int i = n ? int( g.i( 0, n - 1 ) ) : 0;
        if ( g.p( .15 ) && n )     // the argument is itself a section of this cascade
        {
            int j = int( g.i( 0, n - 1 ) ); auto src = c.begin() + j; Q was = l[ size_t( j ) ];
            switch ( g.i( 0, 3 ) )
            {
                case 0: if ( n < N ) { what = "append of an own section"; c.append( *src ); l.push_back( was ); } break;
                case 1: if ( n < N ) { what = "insert of an own section"; c.insert( i, *src ); l.insert( l.begin() + i, was ); } break;
                case 2:
                {
                    what = "replace by an own section"; Q old = c.replace( i, *src );
                    if ( dump( old ) != dump( l[ size_t( i ) ] ) ) vm::fail( "replace-returns", "replace( %d ) by section %d returns %s, the previous section was %s", i, j, str( dump( old ) ).c_str(), str( dump( l[ size_t( i ) ] ) ).c_str() );
                    l[ size_t( i ) ] = was; break;
                }
                default: what = "self assignment"; { auto & self = c; c = self; }
            }
        }
        else if ( k <= 2 && n < N ) { what = "append"; Q q = mkq( g ); c.append( q ); l.push_back( q ); }
        else if ( k <= 4 && n && n < N ) { what = "insert"; Q q = mkq( g ); c.insert( i, q ); l.insert( l.begin() + i, q ); }
        else if ( k == 5 && n ) { what = "remove"; c.remove( i ); l.erase( l.begin() + i ); }
        else if ( k == 6 && n )
        {
            what = "replace"; Q q = mkq( g ); Q old = c.replace( i, q );
            if ( dump( old ) != dump( l[ size_t( i ) ] ) ) vm::fail( "replace-returns", "replace( %d ) returns %s, the previous section was %s", i, str( dump( old ) ).c_str(), str( dump( l[ size_t( i ) ] ) ).c_str() );
            l[ size_t( i ) ] = q;
        }
        else if ( k == 7 && g.p( .2 ) ) { what = "clear"; c.clear(); l.clear(); }
        else if ( k == 8 && g.p( .3 ) ) { what = "copy"; *box[1 - b].c = c; m[1 - b] = l; }
        else if ( k == 9 && n ) { what = "stepping"; double x = g.uni( -1, 1 ); auto it = c.begin() + i; it->step( x ); l[ size_t( i ) ].step( x ); }
        if ( !what ) continue;
        h = vm::mix( h, vm::strhash( what ) + uint64_t( i * 2 + b ) ); vm::event();
        for ( int e = 0; e < 2; ++e ) compare<N>( *box[e].c, m[e], what );
        if ( names.size() < 200 ) names += vm::fmt( " %s(%d)", what, i );
    }
    vm::distinct( h ); vm::sample( "capacity %d:%s", N, names.c_str() );
}
template< int N, int... I > void construct( vm::Rng & g, std::integer_sequence<int, I...> )
{
    std::vector<Q> l; for ( int i = 0; i < int( sizeof...( I ) ); ++i ) l.push_back( mkq( g ) );
    Boxed<N> b( l[ size_t( I ) ]... ); compare<N>( *b.c, l, "construction from sections" );
    dsp::BiQuadCascadeT<double, N> copy( *b.c ); compare<N>( copy, l, "copy construction" );
    if ( l.size() ) { copy.begin()->step( 1 ); compare<N>( *b.c, l, "stepping a copy" ); }
    uint64_t h = 99; for ( auto & q : l ) h = vm::hashd( h, q.coeff_b().b0 ); vm::distinct( h );
}
GROUP( traces, 3000, 100000 ) { switch ( g.i( 0, 5 ) ) { case 0: trace<1>( g ); break; case 1: trace<2>( g ); break; case 2: trace<3>( g ); break; case 3: trace<4>( g ); break; case 4: trace<5>( g ); break; default: trace<8>( g ); } }
// many sections: indices beyond a byte
template< int N > void large( vm::Rng & g )
{
    auto box = std::make_unique<Boxed<N>>(); auto & c = *box->c; std::vector<Q> l; int fill = g.p( .5 ) ? N : int( g.i( N / 2, N ) );
    for ( int i = 0; i < fill; ++i ) { Q q = mkq( g ); c.append( q ); l.push_back( q ); }
    compare<N>( c, l, "append" );
    for ( int o = 0; o < 12; ++o )
    {
        int n = int( l.size() ), i = int( g.p( .3 ) ? g.i( 0, 3 ) : g.p( .5 ) ? g.i( n - 4, n - 1 ) : g.i( 0, n - 1 ) ); const char * what = "remove"; Q q = mkq( g );
        switch ( g.i( 0, 3 ) )
        {
            case 0: c.remove( i ); l.erase( l.begin() + i ); break;
            case 1: if ( n == N ) continue; what = "insert"; c.insert( i, q ); l.insert( l.begin() + i, q ); break;
            case 2: { what = "replace"; Q old = c.replace( i, q ); if ( dump( old ) != dump( l[ size_t( i ) ] ) ) vm::fail( "replace-returns", "capacity %d: replace( %d ) does not return the previous section", N, i ); l[ size_t( i ) ] = q; break; }
            default: { what = "stepping"; double x = g.uni( -1, 1 ); ( c.begin() + i )->step( x ); l[ size_t( i ) ].step( x ); }
        }
        compare<N>( c, l, what ); vm::event();
    }
    uint64_t h = N; for ( auto & q : l ) h = vm::hashd( h, q.coeff_b().b0 ); vm::distinct( h );
}
GROUP( wide, 60, 1500 ) { large<40>( g ); large<150>( g ); large<300>( g ); }
GROUP( built, 200, 5000 )
{
    construct<1>( g, std::make_integer_sequence<int, 0>() ); construct<1>( g, std::make_integer_sequence<int, 1>() );
    construct<2>( g, std::make_integer_sequence<int, 1>() ); construct<2>( g, std::make_integer_sequence<int, 2>() );
    construct<3>( g, std::make_integer_sequence<int, 2>() ); construct<4>( g, std::make_integer_sequence<int, 3>() ); construct<4>( g, std::make_integer_sequence<int, 4>() );
}
#ifndef NDEBUG
template< int N > void trap( vm::Rng & g, int op, int n )
{
    static const char * NAME[] = { "append to a full cascade", "insert into a full cascade", "insert beyond the end", "remove", "replace", "coeff_a", "coeff_b", "state" };
    if ( op <= 1 ) n = N;
    int i = g.p( .5 ) ? int( -g.i( 1, 3 ) ) : n + ( op == 2 ? 1 : 0 ) + int( g.i( 0, 2 ) ); if ( op == 1 ) i = n ? int( g.i( 0, n - 1 ) ) : 0;
    if ( op == 2 && n >= N ) n = N - 1;
    if ( op == 2 && i >= 0 ) i = n + 1 + int( g.i( 0, 2 ) );
    Q extra = mkq( g ); std::vector<Q> l; for ( int k = 0; k < n; ++k ) l.push_back( mkq( g ) );
    fflush( nullptr );
    pid_t p = fork();
    if ( p == 0 )
    {
        int fd = open( "/dev/null", O_WRONLY ); dup2( fd, 2 ); in_trap = true; alarm( 20 );
        auto c = std::make_unique<dsp::BiQuadCascadeT<double, N>>(); for ( auto & q : l ) c->append( q );
        volatile double sink = 0;
        switch ( op )
        {
            case 0: c->append( extra ); break;
            case 1: case 2: c->insert( i, extra ); break;
            case 3: c->remove( i ); break;
            case 4: sink = c->replace( i, extra ).coeff_b().b0; break;
            case 5: sink = c->coeff_a( i ).a1; break;
            case 6: sink = c->coeff_b( i ).b0; break;
            default: sink = c->state( i ).v1;
        }
        (void)sink; _exit( 7 );
    }
    int st = 0; waitpid( p, &st, 0 ); vm::event();
    bool trapped = ( WIFEXITED( st ) && WEXITSTATUS( st ) == 42 ) || ( WIFSIGNALED( st ) && WTERMSIG( st ) == SIGABRT );
    if ( !trapped ) vm::fail( vm::fmt( "not-trapped-%d", op ), "capacity %d with %d sections: %s (index %d) is not trapped by an assertion (status %d)", N, n, NAME[ op ], i, st );
    else vm::counter( "traps_seen" );
    vm::distinct( vm::mix( vm::mix( uint64_t( op * 100 + n ), uint64_t( i + 50 ) ), N ) );
}
GROUP( traps, 120, 1200 ) { int op = int( vm::st().idx % 8 ); switch ( g.i( 0, 2 ) ) { case 0: trap<1>( g, op, int( g.i( 0, 1 ) ) ); break; case 1: trap<3>( g, op, int( g.i( 0, 3 ) ) ); break; default: trap<4>( g, op, int( g.i( 0, 4 ) ) ); } }
#endif
VMON_MAIN
