// C17: a cascade filters like its sections in series.
#include "dsp.hpp"
#include "dsp/biquad-cascade.hpp"
#include "num/fixed-point.hpp"
#include <limits>

template< class T > struct io { static T in( ld v ) { return T( v ); } static ld out( T v ) { return ld( v ); } static constexpr bool real = true; };
template< int I, int F > struct io< num::fixed_point<int32_t, I, F> >
{
    using X = num::fixed_point<int32_t, I, F>; static X in( ld v ) { return X( double( v ) ); } static ld out( X v ) { return v.as_double(); } static constexpr bool real = false;
};
template< class T > dsp::BiQuadT<T> mk( Co const & c )
{
    using Q = dsp::BiQuadT<T>; typename Q::B b{ io<T>::in( c.b0 ), io<T>::in( c.b1 ), io<T>::in( c.b2 ) }; typename Q::A a{ io<T>::in( c.a1 ), io<T>::in( c.a2 ) };
    return Q( b, a );
}
template< class Q > std::vector<ld> dump( Q const & q ) { using T = typename Q::value_type; auto a = q.coeff_a(); auto b = q.coeff_b(); auto w = q.state(); auto o = []( T v ) { return io<T>::out( v ); }; return { o( b.b0 ), o( b.b1 ), o( b.b2 ), o( a.a1 ), o( a.a2 ), o( w.v1 ), o( w.v2 ) }; }
static bool eq( ld a, ld b ) { return a == b || ( std::isnan( a ) && std::isnan( b ) ); }

template< class T, int N > void series( vm::Rng & g )
{
    using C = dsp::BiQuadCascadeT<T, N>; using Q = dsp::BiQuadT<T>;
    C c; std::vector<Q> l; int n = int( g.i( 0, N ) ), form = int( g.i( 0, 3 ) ); uint64_t h = uint64_t( n * 4 + form ); std::vector<Co> cs;
    for ( int i = 0; i < n; ++i )
    {
        Co k = io<T>::real ? gen( g, g.p( .8 ), .99L ) : Co{ g.uni( -1, 1 ), g.uni( -.5, .5 ), g.uni( -.5, .5 ), g.uni( -.9, .9 ), g.uni( -.05, .3 ) };
        Q q = mk<T>( k ); c.append( q ); l.push_back( q ); auto d = dump( q ); cs.push_back( { d[0], d[1], d[2], d[3], d[4] } ); h = vm::mix( h, hashco( cs.back() ) );
    }
    C other = c; std::vector<Q> keep = l;      // an untouched cascade, watched for interference
    auto same = [&]( C const & a, std::vector<Q> const & b, const char * what )
    {
        size_t i = 0; for ( auto const & q : a ) { if ( i >= b.size() || dump( q ) != dump( b[i] ) ) { vm::fail( what, "%s: section %zu of %d differs from what the sections alone would hold", what, i, n ); return; } ++i; }
    };
    int len = int( g.i( 3, 40 ) ); double sparse = g.p( .4 ) ? g.uni( .1, .9 ) : 0, amp = io<T>::real && g.p( .3 ) ? g.logu( 1e-25, 1e12 ) : 1;
    std::vector<ld> co; if constexpr( io<T>::real ) if ( g.p( .25 ) ) { amp = 1; co = coincide<T>( g, c, len, [&]( C & q, T v ) { return form == 2 ? step_df2_transposed( q, v ) : form == 1 ? step_df2( q, v ) : step( q, v ); } ); }
    for ( int k = 0; k < len; ++k )
    {
        if ( g.p( .04 ) )
        {
            reset( c ); for ( auto & q : l ) q.reset(); vm::event();
            for ( auto const & q : c ) { auto w = q.state(); if ( io<T>::out( w.v1 ) != 0 || io<T>::out( w.v2 ) != 0 ) vm::fail( "reset-state", "a section is not at rest after resetting its cascade" ); }
            same( c, l, "cascade-reset" );
        }
        ld x = !co.empty() ? co[ size_t( k ) ] : g.p( sparse ) ? 0 : io<T>::out( io<T>::in( amp * g.uni( -1, 1 ) ) ), want = x; T v = io<T>::in( x );
        int f = form == 3 ? int( g.i( 0, 1 ) ) : form;
        for ( auto & q : l ) { T in = io<T>::in( want ); want = io<T>::out( f == 0 ? q.step( in ) : f == 1 ? q.step_df2( in ) : q.step_df2_transposed( in ) ); if ( !( std::fabs( want ) < 1e30L ) ) return; }
        ld got = io<T>::out( f == 0 ? step( c, v ) : f == 1 ? step_df2( c, v ) : step_df2_transposed( c, v ) ); vm::event();
        if ( n == 0 && got != x ) vm::fail( "empty-cascade", "an empty cascade returns %.12Lg for %.12Lg", got, x );
        if ( !eq( got, want ) ) { vm::fail( vm::fmt( "series-%d", f ), "%d sections: cascade %s gives %.15Lg at sample %d, the sections in series give %.15Lg", n, f == 0 ? "step" : f == 1 ? "step_df2" : "step_df2_transposed", got, k, want ); break; }
        h = vm::hashd( h, double( x ) );
    }
    same( c, l, "cascade-state" ); same( other, keep, "other-cascade-touched" );
    if constexpr( io<T>::real )
    {
        bool st = true; for ( auto & q : l ) st = st && q.is_stable();
        if ( is_stable( c ) != st ) vm::fail( "cascade-stable", "a cascade of %d sections is reported %s although its sections are%s all stable", n, is_stable( c ) ? "stable" : "not stable", st ? "" : " not" );
        vm::counter( st ? "stable" : "unstable" );
        ld e = std::numeric_limits<T>::epsilon();
        for ( int k = 0; k < 3; ++k )
        {
            T fn = g.p( .1 ) ? T( 0 ) : g.p( .1 ) ? T( .5 ) : g.p( .1 ) ? T( .25 ) : T( g.uni( 0, .5 ) ); lc want = 1; ld rel = 4 * e * ( n + 1 ), cond = 1; bool ok = true;
            for ( auto & q : cs ) { if ( std::abs( den_( q, fn ) ) < 1e-4L ) ok = false; want *= H( q, fn ); ld a = std::abs( H( q, fn ) ); rel += 12 * e * ( 1 + 2 * PIl * fn ) * Hcond( q, fn ) / ( a > 0 ? a : 1 ); cond *= a; }
            if ( !ok || rel > .01L ) continue;
            auto R = response( c, fn ); lc got( R.real(), R.imag() ); vm::event();
            if ( !( std::abs( got - want ) <= rel * 2 * std::abs( want ) + 1e-30L ) ) vm::fail( "cascade-response", "%d sections: response( %.9g ) is (%.9Lg,%.9Lg), the product of the section responses is (%.9Lg,%.9Lg)", n, double( fn ), got.real(), got.imag(), want.real(), want.imag() );
        }
        same( c, l, "response-changes-cascade" );
    }
    vm::distinct( h ); vm::sample( "%d sections, %d samples", n, len );
}
// long monotonous signals through a cascade and through its sections alone
template< class T > void longruns( vm::Rng & g )
{
    dsp::BiQuadCascadeT<T, 5> c; std::vector< dsp::BiQuadT<T> > l; int n = int( g.i( 1, 5 ) ), form = int( g.i( 0, 2 ) ); for ( int i = 0; i < n; ++i ) { auto q = mk<T>( gen( g, true, .9999L ) ); c.append( q ); l.push_back( q ); }
    auto x = monotonous( g, vm::st().thorough ? 40000 : 6000 ); vm::event( x.size() ); vm::counter( "long_run_samples", x.size() );
    for ( size_t i = 0; i < x.size(); ++i )
    {
        T v = T( x[ i ] ), y = form == 2 ? step_df2_transposed( c, v ) : form == 1 ? step_df2( c, v ) : step( c, v ); for ( auto & q : l ) v = form == 2 ? q.step_df2_transposed( v ) : form == 1 ? q.step_df2( v ) : q.step( v );
        if ( !eq( ld( y ), ld( v ) ) ) { vm::fail( "cascade-output", "cascade of %d sections, long monotonous input: output %zu is %.12Lg, the sections in series give %.12Lg", n, i, ld( y ), ld( v ) ); return; }
    }
    vm::distinct( vm::hashd( uint64_t( n * 3 + form ), double( l[0].coeff_a().a1 ) ) );
}
GROUP( longrun, 25, 400 ) { longruns<double>( g ); longruns<float>( g ); }
GROUP( d1, 300, 8000 ) { series<double, 1>( g ); }
GROUP( d4, 3000, 100000 ) { series<double, 4>( g ); }
GROUP( d7, 800, 30000 ) { series<double, 7>( g ); }
GROUP( f3, 2000, 60000 ) { series<float, 3>( g ); }
GROUP( fx3, 1000, 30000 ) { series<num::fixed_point<int32_t, 15, 16>, 3>( g ); }
// one unstable section anywhere makes the cascade unstable; resetting an empty cascade is harmless
GROUP( verdict, 500, 10000 )
{
    dsp::BiQuadCascadeT<double, 5> c; int n = int( g.i( 1, 5 ) ), bad = int( g.i( -1, n - 1 ) ); reset( c ); if ( !is_stable( c ) || c.size() != 0 ) vm::fail( "empty-stable", "an empty cascade is not stable or not empty after reset" );
    auto r = response( c, .2 ); if ( r.real() != 1 || r.imag() != 0 ) vm::fail( "empty-response", "an empty cascade has response (%g,%g)", r.real(), r.imag() );
    for ( int i = 0; i < n; ++i ) { double p = i == bad ? g.uni( 1.01, 2 ) : g.uni( .1, .99 ), t = g.uni( 0, M_PI ); Co k; k.b0 = 1; k.a1 = -2 * p * std::cos( t ); k.a2 = p * p; c.append( mk<double>( k ) ); }
    if ( is_stable( c ) != ( bad < 0 ) ) vm::fail( "cascade-stable", "%d sections, unstable one at %d: reported %s", n, bad, is_stable( c ) ? "stable" : "not stable" );
    vm::event( 3 ); vm::distinct( vm::mix( uint64_t( n * 10 + bad ), g.next() ) );
}
VMON_MAIN
